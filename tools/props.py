prop("C01", "Gaussian and mixture densities and sample statistics are mathematically exact",
 "For every mean, positive-definite covariance and point, a Gaussian evaluates to the normal probability density, and a mixture to the sum of its components' densities weighted by their weights. For every sequence of weighted samples, the statistics accumulator yields their weighted mean and covariance, however the samples are ordered.",
 ["inputs"], "all dimensions, scalar types, covariances, weights and evaluation points",
 T + "no density value is ever compared with anything.",
 ["src/tools/GaussianMixture.hpp", "src/tools/Numeric.hpp"], [("Gaussian::eval", "src/tools/GaussianMixture.hpp"), ("GaussianMixture::eval", "src/tools/GaussianMixture.hpp"), ("normDist, Gaussian statistics", "src/tools/Numeric.hpp")],
 ["return values"], "property-based testing against a long-double reference density")
prop("C02", "Clustering and EM fit a mixture that is a proper, never worse explanation",
 "For every sample set, clustering returns clusters that are the mean and covariance of the samples nearest to them, with weights that sum up to one and finite numbers even if a cluster gets no samples. Each expectation-maximisation step assigns the responsibilities given by the current mixture and re-estimates weights, means and covariances from them, whatever the unit of the weights, so the (weighted) likelihood of the samples never drops and a run ends when it no longer improves by the threshold. Components without a density and samples no component explains leave the others alone, and what is left is again a mixture with weights that sum up to one.",
 ["inputs"], "all finite sample sets with or without weights, numbers of classes and thresholds",
 T + "one sample set cannot show monotonic likelihood or behaviour with empty clusters.",
 ["src/tools/GaussianMixture.hpp", "src/tools/ExpectationMaximization.hpp"], [("KMeans::initialize / update", "src/tools/GaussianMixture.hpp"), ("ExpectationMaximization::initialize, expectation, maximization, run", "src/tools/ExpectationMaximization.hpp")],
 ["parameters of the mixture, log likelihood"], "property-based testing against an independent EM step, likelihood monotonicity")
prop("C03", "Samples drawn from a mixture follow its distribution",
 "Samples drawn from a Gaussian or a mixture of Gaussians have the component frequencies, means and covariances of the distribution they are drawn from, for every mixture and seed. The sequence of samples is a function of the seed.",
 ["inputs"], "all mixtures and generator seeds", T + "the samples are drawn but their distribution is never examined.",
 ["src/tools/GaussianMixture.hpp", "src/tools/Numeric.hpp"], [("GaussianSamplingStrategy / GMM sampling", "src/tools/GaussianMixture.hpp")], ["drawn samples"], "property-based testing with statistical bounds (7 standard errors)")
prop("C04", "The list grid keeps exactly the elements put into each cell, in order",
 "After any history of insertions, erasures, shifting of the whole grid, clearing, resizing, copying and assignment, each cell of a list grid iterates over exactly the elements that were put there and not removed, in list order, whichever cells were emptied before. Copies are independent of the original, and shifting drops exactly the cells that leave the grid.",
 ["histories"], "all grid sizes and all operation histories", "No existing test exercises the container; its defects show only after specific sequences (copy, shift, erase).",
 ["src/tools/ListGrid.hpp"], [("pool of list nodes and back references", "src/tools/ListGrid.hpp")], ["begin/end iteration per cell"], "stateful model-based testing against nested lists")
prop("C05", "Distance look-up tables answer with the true distance and angle",
 "After any sequence of reconfigurations, the box table answers every point of its area with the distance to the box within one cell of discretisation, zero inside the box, and refuses points outside its area. The radial table answers every cell offset below its radius with the exact distance and angle.",
 ["inputs", "histories"], "all table sizes, scales, borders, look-up points and reconfiguration histories", "No existing test touches the tables.",
 ["src/tools/BoxLookUpTable.cpp", "src/tools/RadialLookUpTable.cpp"], [("recompute, getDistance", "src/tools/BoxLookUpTable.*"), ("recompute, getDistance, getAngle", "src/tools/RadialLookUpTable.*")], ["return values, exceptions"], "stateful property-based testing against the analytic distance")
prop("C06", "Scalar measurement fusion is the optimal (Kalman) estimate",
 "Fusing a measurement into an estimate yields the inverse-variance weighted mean and the matching standard deviation, for every mean and deviation. The result lies between the two means, never becomes less certain, and a sequence of measurements gives the same result in any order.",
 ["inputs"], "all means and deviations, both float types, sequences of updates", "No existing test evaluates the fusion.",
 ["src/tools/Numeric.hpp"], [("kalman_update", "src/tools/Numeric.hpp")], ["updated mean and deviation"], "property-based testing against the information-form posterior")
prop("C07", "Layer metadata is typed, owned by its layer, and independent between copies",
 "Metadata stored with a layer under a key is returned unchanged until it is replaced or removed, is created on first use, and access with another type than it was stored with (or, on a constant layer, to a missing key) throws. Copies, clones and assigned layers get metadata of their own, and every metadata object is destroyed exactly once.",
 ["histories"], "all histories of metadata access, removal, copying, assignment and destruction, for all value types", C + "one or two accesses; ownership and wrong-type access need histories.",
 ["src/core/Holder.hpp", "src/core/Layer.hpp", "src/core/Layer.cpp"], [("HolderBase / Holder", "src/core/Holder.hpp"), ("Layer::getData, removeData, copy operations", "src/core/Layer.*")], ["return values, exceptions, live instances"], "stateful model-based testing with instance counting")
prop("C10", "The environment graph stays consistent over any history of changes",
 "After any history of attaching, relating, re-parenting and detaching items, every query on an environment (items by id and type, parents, children, maps, frames, inputs, outputs, generators) answers exactly what that history established: relations exist once, vanish with either partner, and ids are unique, prefixed as configured and never given twice at the same time. Attached items are owned by their environment, detached ones by whoever holds them, and each is destroyed exactly once.",
 ["histories"], "all histories of graph operations on environments and items", C + "short fixed sequences; dangling relations, double ownership and id clashes need specific histories.",
 ["src/core/Environment.cpp", "src/core/Environment.hpp", "src/core/EnvironmentItem.cpp", "src/core/FrameNode.cpp", "src/core/Layer.cpp", "src/core/Operator.cpp"],
 [("item map, frame node tree, layer tree, operator graphs, frame node graph", "src/core/Environment.*"), ("intrusive reference count", "src/core/EnvironmentItem.*")], ["query results, exceptions, reference counts, live instances"], "stateful model-based testing against a set model")
prop("C11", "Event handlers see exactly the changes, so a mirror can be rebuilt from them",
 "An event handler that is registered with an environment at any time can reconstruct all items and relations of that environment from the events alone, and after it is removed from the environment nothing is left in its reconstruction. Events that are queued and merged before being applied lead to the same result as applying them one by one, and events apply to a second environment so that it mirrors the first.",
 ["histories"], "all histories of changes and all points of registration, flushing and removal", C + "fixed short sequences; lost or superfluous events depend on the history and on when the handler is registered and flushed.",
 ["src/core/Environment.cpp", "src/core/Event.cpp", "src/core/EventHandler.cpp", "src/core/EventHandler.hpp", "src/core/EventSource.cpp"], [("EventSource::handle, addEventHandler, publishChilds / detachChilds", "src/core/Environment.cpp"), ("EventQueue merge rules", "src/core/EventHandler.cpp"), ("Event::apply", "src/core/Event.cpp")], ["events received, state of the mirror"], "stateful testing: event-sourced listener and mirrored environment as oracle")
prop("C12", "Binary events synchronise another environment completely and faithfully",
 "Changes of an environment that are serialised to binary events and applied to a second environment, in immediate, queued or copying mode, make that environment equal to the first in items, content and relations. Text, numbers, covariances and binary content of any size survive the transfer unchanged, and a context update of one map transfers that map with its whole chain of frames.",
 ["histories", "inputs"], "all histories, item contents, modes and transfer points", C + "one item and one transfer; truncation, lost relations and stale content depend on sizes and histories.",
 ["src/core/EventHandler.cpp", "src/core/Serialization.cpp", "src/core/EventTypes.hpp", "src/core/Event.cpp"], [("SynchronizationEventHandler / SynchronizationEventQueue", "src/core/EventHandler.*"), ("BinarySerialization", "src/core/Serialization.cpp")], ["state of the receiving environment"], "stateful differential testing of two environments")
prop("C13", "A saved scene loads back as the same environment",
 "Saving an environment to a directory and loading it gives an environment with the same items, classes, labels, content, frame tree, layer and operator relations and root, whatever text, numbers or binary content the items hold. The loaded environment can be extended and saved again without clashes, and loading an item of an unregistered class or a missing scene is reported as an error.",
 ["histories", "inputs"], "all environments reachable by histories of operations, all contents", C + "one small scene; escaping, precision, missing relations and id reuse depend on content and history.",
 ["src/core/Serialization.cpp", "src/core/Environment.cpp", "src/core/EnvironmentItem.cpp", "src/core/SerializationFactory.cpp"], [("FileSerialization::serialize / unserialize", "src/core/Serialization.cpp"), ("SerializationFactory::createObject", "src/core/SerializationFactory.cpp")], ["state of the loaded environment, exceptions"], "round-trip testing over generated environments")
prop("C14", "Relative transforms compose along the frame tree",
 "The transform between two frames, or between a map and a frame, is the product of the transforms on the path between them, so it is the identity from a frame to itself, inverts when source and target are swapped, and composes through any third frame. Frames without a common root have no transform and asking for it throws; points and bounding boxes taken from one map into another frame agree with that transform.",
 ["inputs", "histories"], "all frame trees, poses, re-parentings and pairs of frames", C + "a few fixed chains.",
 ["src/core/Environment.cpp", "src/core/FrameNode.cpp", "src/core/Map.hpp", "src/core/CartesianMap.hpp"], [("Environment::relativeTransform", "src/core/Environment.cpp"), ("toMap / fromMap / getExtentsTransformed", "src/core/Map.hpp")], ["returned transforms"], "property-based testing against matrix products and group laws")
prop("C15", "Uncertainty of transforms and points is propagated to first order",
 "Composing, inverting and applying uncertain transforms, also along the frame tree, yields the covariance of first-order error propagation of rotation and translation, symmetric and positive semidefinite. A result is uncertain exactly if one of the transforms between source and target is, and taking a factor out of a composition gives back the other factor and its covariance. What is made without arguments is the identity or the origin and certain, and a certain point moved by a certain transform stays certain.",
 ["inputs"], "all poses (rotations up to the validity of the small-angle series for the covariance), covariances and frame trees", C + "one or two fixed transforms.",
 ["src/core/Transform.cpp", "src/core/Transform.hpp", "src/core/Environment.cpp"], [("TransformWithUncertainty::composition, compositionInv, preCompositionInv, inverse, operator*", "src/core/Transform.cpp"), ("relativeTransformWithUncertainty", "src/core/Environment.cpp")], ["covariances"], "property-based testing against numerically differentiated exact operations", "The covariance oracle is compared for rotations up to about 0.9 rad, within the fourth-order error of the series the code documents; beyond that only soundness.")
prop("C16", "Operators respect arity and update exactly the layers that need it",
 "An operator never has more inputs or outputs than its declared arity; adding one more throws and changes nothing, setting one replaces all. Updating a layer runs its generating operator once if the layer is dirty and not at all otherwise, after which it is clean; detaching a layer from its operators leaves it not generated; updating all operators runs each once and announces each of its outputs.",
 ["histories"], "all histories of connecting, dirtying, updating and detaching layers and operators", C + "one operator with one layer.",
 ["src/core/Operator.cpp", "src/core/Layer.cpp", "src/core/Environment.cpp"], [("Operator::addInput / addOutput arity", "src/core/Operator.cpp"), ("Layer::updateFromOperator, detachFromOperator", "src/core/Layer.cpp"), ("Environment::updateOperators", "src/core/Environment.cpp")], ["operator runs, events, exceptions, layer state"], "stateful model-based testing")
GB = ["src/maps/GridBase.cpp", "src/maps/GridBase.hpp"]
prop("C17", "Grid cells and world positions correspond exactly",
 "A position lies in the grid exactly if it is inside the grid's extents (size times scale from the offset), also if it is far away or not finite, and is then found in the one cell that contains it; the center of every cell is found in that cell, in the map's frame and in any other frame. Visiting the cells under an oriented rectangle (or an inner and an outer one) calls back every cell it covers and no cell it does not touch, each once and never outside the grid, apart from aliasing of a fraction of a cell at the rectangle's border; a rectangle that leaves the grid is refused without a callback. Grids are aligned, or aligned by cells, exactly if their cells are in the same place, or displaced by whole cells, in the world.",
 ["inputs"], "all grid sizes, scales, offsets, frames, positions and rectangles", C + "a handful of positions and axis-parallel rectangles on one grid.",
 GB + ["src/maps/Grid.hpp", "src/tools/BresenhamLine.cpp"], [("toGrid, fromGrid, contains, getExtents", "src/maps/GridBase.cpp"), ("getRectPoints, forEachInRectangle(s)", "src/maps/GridBase.cpp"), ("isAlignedWith, isCellAlignedWith", "src/maps/GridBase.cpp")], ["returned cells, positions, callbacks"], "property-based testing against the cell geometry (interval and separating-axis oracles)")
prop("C18", "Grid bands hold what was written, and copies are independent",
 "A value written to a cell of a band, by cell index or by a position inside the cell, is read back from that cell and band and changes no other; bands, no-data values and extrema are those that were written. Copies of bands and grids equal their source and are independent of it afterwards, and grids of another cell type or positions outside the grid are refused. An elevation grid interpolates the surface through cell centers with the slope between the neighbours, so planes are reproduced with their normal at every position, border cells included; images and distance images are copied pixel by pixel.",
 ["histories", "inputs"], "all cell types, sizes, histories of band operations, heights and positions", C + "single accesses to one grid.",
 ["src/maps/Grid.hpp", "src/maps/Grids.hpp", "src/maps/Grids.cpp", "src/maps/ElevationGrid.cpp", "src/maps/ElevationGrid.hpp"], [("Grid<T> bands, copyBandFrom, clone / set", "src/maps/Grid.hpp"), ("getNormal / getElevation", "src/maps/ElevationGrid.cpp")], ["cell values, exceptions"], "stateful model-based testing against plain arrays; surfaces against the plane equation")
prop("C19", "Grids survive saving, transfer and raster files unchanged",
 "A grid of any class and cell type that is saved with its scene and loaded, or sent to another environment as a binary event (new or as an update), has the same geometry, bands, values bit by bit and no-data values. A raster file read as a grid has, at the world position of every pixel, the value of that pixel, whichever direction the axes of the file have, and a band written to a file is read back with the same values at the same world positions. Files of another size, cell type or band count and rotated rasters are refused.",
 ["inputs", "histories"], "all grid classes, cell types, sizes, contents, band sets and axis directions", C + "one saved grid.",
 ["src/maps/Grid.hpp", "src/maps/GridBase.cpp", "src/core/Serialization.cpp"], [("Grid<T>::serialize / unserialize, readGridData, writeGridData", "src/maps/Grid.hpp"), ("readGridFromGdal", "src/maps/GridBase.cpp")], ["loaded grids, exceptions"], "round-trip testing over generated grids and raster files", "GDAL is a stand-in (shim/gdal) with the documented raster access semantics.")
prop("C20", "Lines and rays visit exactly the cells they cross",
 "A Bresenham line goes from its start to its end cell in steps to neighbouring cells, never backwards and never more than half a cell from the ideal line. Traversing a grid along a ray from any position in it yields, in order, each next cell the ray enters until it leaves the grid, whatever the direction, scale and offset, and no cell for a ray that begins outside. The illumination of every cell of an elevation grid is one minus the part of the light that is hidden by the highest cell between it and the light, one if nothing is in between, and the elevations are left alone.",
 ["inputs"], "all lines, rays, grids, height fields and light positions", C + "one ray without looking at its cells.",
 ["src/tools/BresenhamLine.cpp", "src/tools/VoxelTraversal.hpp", "src/operators/GridIllumination.cpp"], [("Bresenham::getNextPoint", "src/tools/BresenhamLine.cpp"), ("VoxelTraversal::init / step", "src/tools/VoxelTraversal.hpp"), ("GridIllumination::updateAll", "src/operators/GridIllumination.cpp")], ["visited cells, illumination band"], "property-based testing against exact border crossings and brute-force occlusion")
ML = ["src/maps/MLSGrid.cpp", "src/maps/MLSGrid.hpp"]
prop("C21", "Surface patches merge as their update model prescribes",
 "In the Kalman model two surfaces within thickness and joint deviation fuse to the precision weighted mean and deviation, further ones within the gap size (and any with a block) become a block that covers both, two free patches a free one, and where occupied and free patches meet the newer one stays as it is while the older one is cut to what lies outside of it, or replaced if nothing does. In the sum model any order and grouping of measurements gives their weighted mean, range, weight, count and scatter less the measurements' own variance; in the slope model more than three give the least squares plane. Patches further apart than the gap size (and deviation) are left alone; otherwise counts add up, the age is the newer one and colors are averaged.",
 ["inputs", "histories"], "all patch types, heights, deviations, ages, thresholds, update models, orders and groupings of measurements", C + "a few fixed merges in one model without looking at ranges, blocks or free space.",
 ["src/maps/MLSPatch.hpp", "src/tools/Numeric.hpp"], [("mergeMLS, mergeSum, mergePlane, merge", "src/maps/MLSPatch.hpp"), ("updateSum, updatePlane", "src/maps/MLSPatch.hpp")], ["merged patches, return values"], "property-based testing against interval, moment and least squares references in double precision", "numeric::PlaneFitting is a stand-in (shim/numeric).")
prop("C22", "A multi-level surface grid keeps every measurement, in its cell, once",
 "After any history of insertions, measurement updates (by cell or by position), erasures, moves, clearing, copying, assignment and weight scaling, each cell of an MLS grid holds exactly the patches this history put there, in order, and patch count, extents and cell index agree with them. A measurement changes its own cell only: it becomes a new patch, is merged into the one patch that accepts it, or joins those it bridges, and is counted once; positions outside the grid are refused. Looking up a patch finds one that matches height and deviation exactly if there is one, and projecting a path follows the surface nearest to the last height.",
 ["histories", "inputs"], "all operation histories, update models, grids, measurements and look-ups", C + "two insertions, or random updates without looking at the result.",
 ML + ["src/maps/MLSPatch.hpp", "src/tools/ListGrid.hpp"], [("updateCell, update, insertHead / insertTail, erase", "src/maps/MLSGrid.cpp"), ("addCell, initIndex, move, operator=", "src/maps/MLSGrid.cpp"), ("get, projectPointsOnSurface", "src/maps/MLSGrid.cpp")], ["patches of all cells, counts, extents, index"], "stateful model-based testing")
prop("C23", "Merging and matching MLS grids follows the transform between them",
 "Merging an MLS grid into another one under a transform gives every patch whose cell center lands in the target grid to the cell where it lands, with its height raised by the transform and the offset, its deviation increased by that of the offset and the age of the offset, in every update model; other cells and the source are left alone and no measurement is lost. Matching gives the share of occupied source cells that land in the target and have a patch there which matches one of theirs at that height, or one if no cell lands there.",
 ["inputs"], "all pairs of grids, contents, transforms, offsets and update models", C + "one merge of aligned grids without looking at the result.",
 ML, [("merge, match, generateIndex", "src/maps/MLSGrid.cpp"), ("SurfacePatch::translate", "src/maps/MLSPatch.hpp")], ["patches of the target, match ratio"], "differential testing against measurements placed one by one, and a brute-force match")
prop("C24", "MLS grids survive saving, transfer and all map format versions",
 "An MLS grid that is saved with its scene and loaded (under its current or former class name), or sent to another environment as a binary event, new or over an older copy, has the same geometry, configuration and patches, bit by bit and in order, with matching count and extents. Map streams of the format versions 1.0 to 1.3 are read as the patches their records describe. A stream with another header, version or record size, or with a cell outside of the grid, is refused.",
 ["inputs", "histories"], "all grids, contents, configurations, format versions and damaged headers", "No existing test saves an MLS grid.",
 ML + ["src/core/Serialization.cpp"], [("serialize / unserialize, writeMap / readMap", "src/maps/MLSGrid.cpp")], ["loaded grids, exceptions"], "round-trip testing, and streams put together from the records of each version")
prop("C25", "Collections of maps answer for the maps they hold, where these are now",
 "Looking up a patch in an MLS map finds the matching patch of the newest grid that has one at that position, in map coordinates, whatever was looked up, moved, added or taken out before. A created grid is an empty copy of the active one at the position asked for (at a whole number of cells and unrotated if aligned); selecting activates the nearest grid within the threshold or creates one; copies share the grids and a deep clone has an active grid of its own in the same place. A map segment gives the map of the largest weight, the one closest to a pose with its pose and trajectory, the extents of all its maps, and the weighted mean and covariance of their poses.",
 ["histories", "inputs"], "all histories of look-ups, moves, creation, selection, assignment and cloning; all sets of parts", "No existing test uses either class.",
 ["src/maps/MLSMap.cpp", "src/maps/MLSMap.hpp", "src/maps/MapSegment.cpp"], [("getPatch, createGrid, selectActiveGrid, cloneDeep", "src/maps/MLSMap.cpp"), ("addPart, update, getTransform, getMapForPose, getExtents", "src/maps/MapSegment.cpp")], ["patches, grids, frames, relations, extents"], "stateful model-based testing against a search of all grids", "Grids rotated about horizontal axes are not claimed (the library only moves heights along z).")
prop("C26", "Traversability grids keep classes and values, and their statistics are right",
 "A traversability grid returns for every cell the class and the probability that were set (to one step of a byte), and the drivability of exactly the classes that were registered, under numbers of their own; a cell of a class that is not registered is refused. The statistics of a rectangle (any place and angle, with and without a border) count, per class, the cells and the shortest distance to the rectangle's center as a count of the visited cells does; the worst class and the worst probability of a rectangle are the least ones of its cells. Copies have data of their own, and saving, loading and transfer keep all classes (unset ones as unset), values and probabilities.",
 ["histories", "inputs"], "all grids, classes 0 to 255, rectangles at any place and angle, histories of changes and copies", C + "one grid with classes set in order.",
 ["src/maps/TraversabilityGrid.cpp", "src/maps/TraversabilityGrid.hpp"], [("setTraversability, getTraversability, getWorstTraversabilityClassInRectangle, computeStatistic", "src/maps/TraversabilityGrid.cpp"), ("serialize / unserialize", "src/maps/TraversabilityGrid.cpp")], ["classes, probabilities, statistics, loaded grids"], "stateful model-based testing against a plain array and brute-force statistics")
prop("C27", "Traversability operators classify, grow and project as specified",
 "SimpleTraversability makes cells whose step exceeds the ground clearance or whose slope exceeds the maximum obstacles, gives others the class of their slope and leaves cells without data unknown, whatever ran before; passages between obstacles narrower than the minimum width are closed and cells within the obstacle clearance become known obstacles, no others. Growing classes gives every cell the least drivable known class within the radius with that cell's probability; growing objects gives it the biggest class within the radius. Projection and neighbourhood folding do what brute force does, inside the grid. Outputs of another shape are refused, and a saved operator works as before when loaded.",
 ["inputs", "histories"], "all grids, configurations, radii, bands and repeated runs", C + "one grid without looking at the result.",
 ["src/operators/SimpleTraversability.cpp", "src/operators/TraversabilityGrowClasses.cpp", "src/operators/ObjectGrowing.cpp", "src/operators/Fold.hpp"], [("updateAll, closeNarrowPassages, growObstacles", "src/operators/SimpleTraversability.cpp"), ("growTerrain", "src/operators/TraversabilityGrowClasses.cpp"), ("updateAll", "src/operators/ObjectGrowing.cpp")], ["output bands, exceptions"], "differential testing against brute-force neighbourhood computations")
prop("C28", "The grassfire classifies exactly the terrain the robot can reach",
 "From a start position given in the world, the traversability grassfire assigns a class and a probability to the cells connected to the start by steps the robot can climb and to the obstacles next to these, and leaves all others unknown with probability zero. A cell with a neighbour that is a step away is an obstacle; with five or more known neighbours the class follows the slope of their plane; the probability follows the number of measurements of the surface the robot drives on. If there is no ground near the start the operator says so and classifies nothing. An output of another size is refused.",
 ["inputs", "histories"], "all terrains (of unambiguous reachability), layers, ceilings, holes, outliers, configurations, starts, frames and repeated runs", "No existing test runs the operator.",
 ["src/operators/TraversabilityGrassfire.cpp"], [("determineDrivePlane, getNearestPatchWhereRobotFits, checkRecursive", "src/operators/TraversabilityGrassfire.cpp"), ("setTraversability, setProbability", "src/operators/TraversabilityGrassfire.cpp")], ["classes, probabilities, result of the operator"], "property-based testing against connected components and least squares planes", "Terrain whose reachability depends on the order of the search is not generated.")
prop("C29", "MLS grids convert to grids, slopes and points, and merge, cell by cell",
 "The highest surface, the mean slope and the largest step of a cell are those of its topmost patch and its neighbours with enough measurements, unknown with fewer than five; an elevation grid becomes one surface per MLS cell whose center has data, in the height and frame of the MLS; merging grids and maps gives every patch to the cell it lands in (or fetches for every cell what lies there), moved to the output's frame with its sums, and loses none; a point cloud has exactly the surfaces and the blocks of the grid, in its own frame. Shapes that do not match are refused; inputs are left alone.",
 ["inputs", "histories"], "all MLS grids, elevation grids, layouts, frames, modes, thresholds and repeated runs", "The existing tests convert a few patches to points.",
 ["src/operators/MLSToGrid.cpp", "src/operators/MLSSlope.cpp", "src/operators/GridFloatToMLS.cpp", "src/operators/MergeMLS.cpp", "src/operators/MLSToPointCloud.cpp"], [("updateAll", "src/operators/MLSSlope.cpp"), ("convert", "src/operators/GridFloatToMLS.cpp"), ("updateAll", "src/operators/MergeMLS.cpp"), ("updateAll", "src/operators/MLSToPointCloud.cpp")], ["output grids, patches and points, exceptions"], "differential testing against a direct evaluation of every cell", "The formula of the corrected step below its threshold is only bounded; frames tilted against each other are generated for point clouds only.")
PC = "No existing test %s. "
prop("C30", "Point clouds and laser scans survive copying, files, scenes and events unchanged",
 "After any history of filling, clearing, copying (with or without the transformation between their frames), cloning and setting, a point cloud, mesh or feature cloud holds exactly the points, normals, colors, attributes and faces put there, each of its own. Saving with the scene and loading, a ply file or a binary event keep points, normals, colors, faces and the sensor's pose; a reader replaces the old content; a text file gives one point per row that is inside the area and subsampling. The normal of a vertex is the mean of those of its faces. A laser scan keeps all of its numbers through files and scenes, reads what a raw scan file describes, and refuses a bad one.",
 ["histories", "inputs"], "all histories of changes, contents, text layouts, scan files, scales and orientations", PC % "looks at a point cloud after it was loaded",
 ["src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp", "src/maps/Featurecloud.cpp", "src/maps/LaserScan.cpp", "src/tools/PlyFile.cpp"], [("serialize / unserialize, readPly / writePly, readText, copyFrom, clear", "src/maps/Pointcloud.cpp"), ("calcVertexNormals", "src/maps/TriMesh.cpp"), ("serialize / unserialize", "src/maps/Featurecloud.cpp"), ("parseScan, writeScan", "src/maps/LaserScan.cpp"), ("PlyFile", "src/tools/PlyFile.cpp")], ["vertex data, faces, lines, exceptions"], "stateful model-based testing, round trips, generated text and scan files", "Key points and descriptors of feature clouds, and variances and attributes of points, have no place in the file formats and are not claimed to be stored.")
prop("C31", "Point cloud operators merge, cut, project and mesh exactly their inputs",
 "Merging puts every point of all inputs, moved to the frame of the target, into the target once, with its normal and color, and refuses inputs of which only some have these, leaving the target as it was. Cutting keeps exactly the points that are in no excluding box and in every including one, in order, with their metadata, moved to the frame of the output. A distance grid becomes the points its pixels see within the distance limit, with the colors of the image if there is one. Meshing a scan makes one point per valid measurement where the laser saw it, with its remission, and a face wherever neighbouring measurements are closer than the limit; a saved operator works as before when loaded.",
 ["inputs", "histories"], "all point clouds, metadata, frames, boxes, distance grids, scans and repeated runs", PC % "runs one of these operators",
 ["src/operators/MergePointcloud.cpp", "src/operators/CutPointcloud.cpp", "src/operators/DistanceGridToPointcloud.cpp", "src/operators/ScanMeshing.cpp"], [("updateAll", "src/operators/MergePointcloud.cpp"), ("updateAll, filter", "src/operators/CutPointcloud.cpp"), ("updateAll", "src/operators/DistanceGridToPointcloud.cpp"), ("updateAll", "src/operators/ScanMeshing.cpp")], ["points and metadata of the output, faces, exceptions"], "differential testing against a direct evaluation of every point")
prop("C32", "Projecting point clouds into an MLS grid places and weighs every point",
 "Every point of every input that is inside the area of interest becomes a measurement in the cell of the grid where its position in the grid's frame lies, with its variance or the default one and its color; with uncertainty, the variance of the transform between the frames at that place is added once; points outside of the grid are left out. With negative information, the cells on the line from a measurement to the sensor get free space between the surface and the line of sight, which never counts as a measurement; a sensor outside of the grid is refused.",
 ["inputs", "histories"], "all point clouds, frames, uncertainties, grids, areas of interest, sensor positions and repeated projections", PC % "looks at a projected grid",
 ["src/operators/MLSProjection.cpp"], [("updateAll, projectPointcloudWithUncertainty, projectPointcloud", "src/operators/MLSProjection.cpp"), ("negative information", "src/operators/MLSProjection.cpp")], ["patches of the grid, exceptions"], "differential testing against measurements put into a reference grid one by one; geometry of the lines of sight")
prop("C33", "ICP and RANSAC find the best rigid motion of what they are given",
 "The transform of a set of pairs is the proper rigid motion with the least remaining squared distance, for pairs in space, in a plane, on a line or in one place, however they were added, trimmed and cleared before; trimming keeps the closest pairs and gives the largest distance left. Trimmed ICP repeats, from the pose of the measurement: nearest neighbours within twice the last largest distance (and, with normals, neither edges nor turned by more than 22.5 degrees), the best share of them, their optimal motion, until a limit on iterations, error or its decrease is met; the frame of the measurement moves by the result. Of several overlaps the search takes the minimum of a unimodal function to within its tolerance. RANSAC finds the motion of all the correct correspondences and which these are.",
 ["inputs", "histories"], "all sets and histories of pairs, clouds, frames, densities, overlaps and limits, unimodal functions, and correspondences with a minority of wrong ones", PC % "aligns two point clouds",
 ["icp/icp.hpp", "icp/icp.cpp", "icp/ransac.hpp"], [("Pairs, FindPairs, Trimmed::align, GoldenSectionSearch", "icp/icp.hpp"), ("Pairs::trim, getTransform", "icp/icp.cpp"), ("ransac", "icp/ransac.hpp")], ["transforms, pairs, errors, iterations, frames"], "differential testing against an optimal motion of a singular value decomposition and a direct implementation of trimmed ICP")
prop("C34", "ICP localisation collects scans, matches them and judges the results rightly",
 "A scan is collected exactly if body or laser moved more than a threshold since each of the collected ones, of which the newest are kept; the cloud made of them has all valid ranges in the frame of the newest body pose. A match moves the cloud as trimmed ICP against the loaded scene would, tells its pairs, error and the configured covariance, and leaves the cloud in the scene only if it is to be saved. A cluster of poses has the mean and the variances of its points, with the yaw taken on the circle; with removal, the farthest point is left out until the variances are in their limits. Samples are in the region of the sigma points of a covariance, whether or not it has variance in each direction; a histogram has densities that sum up to one.",
 ["inputs", "histories"], "all histories of scans, poses and matches, all sets of poses, covariances, distances and configurations", PC % "uses the localisation",
 ["icp/icpLocalization.hpp", "icp/icpLocalization.cpp", "icp/stability.hpp", "icp/stability.cpp"], [("addScanLineToPointCloud, generatePointcloud, doScanMatch", "icp/icpLocalization.cpp"), ("Clustering, Sampling, Histogram", "icp/stability.cpp")], ["point clouds, results of matches, clusters, samples, densities"], "model-based testing of histories of scans; differential testing against direct statistics")
prop("C35", "Lookups find the elevation in any map, and a drawn graph has every relation",
 "The elevation at a position of the world is that of a grid, MLS surface (the first within three deviations of the given height) or nearest point of a cloud (within the given distance) that is there, given in the frame of the position, whichever map or place was asked before; where no map has one, the answer is no and the position stays. An environment written as a graph has exactly one node per item, told apart whatever ids and labels are, with its class, label, id and, for frames, pose, and exactly one edge per relation between frames, layers, inputs, outputs and maps; the text is well formed.",
 ["inputs", "histories"], "all environments with grids, MLS grids or point clouds in any frames, all sequences of positions, and all items, ids, labels and relations", PC % "asks for an elevation or writes a graph",
 ["src/tools/GridAccess.hpp", "src/tools/GridAccess.cpp", "src/tools/GraphViz.cpp"], [("GridAccess, MLSAccess, PointcloudAccess", "src/tools/GridAccess.cpp"), ("writeToFile", "src/tools/GraphViz.cpp")], ["positions, elevations, text of the graph"], "differential testing against a search of all maps; parsing what was written")
prop("C36", "The command line programs do to a scene what their usage says, and no more",
 "Each command line program (create, delete, update, add or make grids, convert between elevation, MLS surface and point cloud, illumination, noise, slopes, traversability, trajectories, graphs, scan files) leaves the scene on disk as its usage says, for all its optional arguments: what it makes has the class, geometry, frame and content asked for, and what it computes is what its operator computes. It tells the id of what it added, refuses wrong numbers of arguments and unknown ids without a change of the scene, and leaves every other item and relation as it was.",
 ["inputs", "configurations"], "all scenes, and all arguments the usage of a program allows or rules out", PC % "runs a program",
 ["tools/env_add_grid.cpp", "tools/env_create_grid.cpp", "tools/env_mls.cpp", "tools/env_mls_slopes.cpp", "tools/env_mls_trajectory.cpp", "tools/env_grid_add_noise.cpp", "tools/env_traversability.cpp", "tools/env_slam6d.cpp", "tools/env_delete_item.cpp"], [("main", "tools/env_add_grid.cpp"), ("main", "tools/env_create_grid.cpp"), ("main", "tools/env_slam6d.cpp"), ("main", "tools/env_traversability.cpp")], ["exit code and output of the program, the scene loaded again, files it wrote"], "property-based testing of the programs on generated scenes, against the scene the library makes by the same steps")
prop("C37", "Damaged scenes, events and map data are refused and break nothing",
 "Reading a scene, a binary event or the data of a map that is damaged (broken, cut off or missing text and files, missing, mistyped, absurd or exchanged values, ids, classes and kinds of events, links to missing or wrong items, in a circle or to a second parent, records or bands that end too early) either ends with an exception or gives items and environments that are consistent and can be saved and loaded again; it never touches memory it must not, aborts or hangs. A refused event leaves the environment as it was, a frame is never below itself, and whoever reads sound data afterwards gets all of it.",
 ["inputs", "histories", "fault_sequences"], "all damages of scenes, events and map data of environments reachable by histories of operations", C + "reads what was written just before.",
 ["src/core/Serialization.cpp", "src/core/Event.cpp", "src/maps/GridBase.cpp", "src/maps/Grid.hpp", "src/maps/MLSGrid.cpp"], [("FileSerialization::readFromFile", "src/core/Serialization.cpp"), ("BinarySerialization::unserializeBinaryEvent, applyEvent", "src/core/Serialization.cpp"), ("Event::apply", "src/core/Event.cpp"), ("unserialize, readMap", "src/maps/MLSGrid.cpp")], ["exceptions, the state of the environment before and after, sanitizers, time"], "mutation fuzzing of saved scenes, events and map data, with the consistency of what was read as oracle")
