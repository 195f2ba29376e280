"""One entry per property. tools/build_docs.py writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md from it."""
CL = 'starshaped_hull/cluster_and_starify.py'
HU = 'starshaped_hull/starshaped_hull.py'
CG = 'utils/cg.py'
OB = 'obstacles/obstacle.py'
EL = 'obstacles/ellipse.py'
PO = 'obstacles/polygon.py'
SO = 'obstacles/starshaped_obstacle.py'
SP = 'obstacles/starshaped_polygon.py'
PC = 'obstacles/starshaped_primitive_combination.py'
MM = 'obstacles/motion_model.py'

T_SCENE = 'The existing tests cluster a handful of random scenes and check only that calls return (or plot them); they compare no result with a reference.'
T_OBST = 'The existing tests draw obstacles or evaluate a few points of fixed shapes without an independent expected value.'

# id: title, statement, over, quantifier text, why, [(mechanism, where)...], method
P = {}


def prop(id, title, statement, over, text, why, mech, method, note):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, method=method, note=note)


prop('C01', 'Clusters partition the obstacles and cover them',
     'Every clustering result, complete or not and in every recorded round, contains each given obstacle in exactly one cluster. The region of a cluster covers all of its members, and the region reported without hull is exactly the union of the members.',
     ['inputs', 'histories', 'configurations'], 'for every set of obstacles, robot and goal position, option combination and sequence of previous results',
     T_SCENE, [('merging of clusters', CL + ':get_intersection_clusters'), ('cluster region', PC + ':_compute_polygon_representation')],
     'Scenes of 1-8 obstacles driven through 1-3 steps with random options; scenes include obstacles with look-alike ids and copies without id; object identity multiset of the members in results and in all history rounds against the input; member regions built from the parameters of the generator (never from the library) must be covered; random member points must be located inside by the resulting obstacle.',
     'Random and hostile scenes; tolerance is the gap of the polygon representation of ellipses.')
prop('C02', 'Cluster regions of a complete result are pairwise disjoint',
     'When clustering reports completion, the regions of any two resulting clusters have no point in common, also after convexification. No position is located inside two of the resulting obstacles.',
     ['inputs', 'histories', 'configurations'], 'for every scene, history and option combination, including an expired time budget during convexification',
     T_SCENE, [('repetition until no intersection', CL + ':cluster_and_starify'), ('intersection grouping', CL + ':get_intersection_clusters')],
     'All pairs of regions of every complete result, plus points sampled around the smallest gap located in all clusters; includes results with the convexification time-out flag, produced with a virtual clock.',
     'Random scenes biased to close and overlapping obstacles.')
prop('C03', 'Robot and goal stay outside all cluster regions',
     'When clustering reports completion, the robot position and the goal position are outside the region of every resulting cluster. This holds by region and by point location.',
     ['inputs', 'histories', 'configurations'], 'for every scene with robot and goal outside the obstacles, every history and option combination',
     T_SCENE, [('admissible kernel', HU + ':admissible_kernel'), ('kernel point selection', CL + ':compute_kernel_points')],
     'Robot and goal placed next to, between and in pockets of obstacles; both positions are located in every cluster of every complete result.',
     'Random and hostile scenes; positions on the region boundary are accepted.')
prop('C04', 'Cluster regions are starshaped with respect to their reference and kernel',
     'When clustering reports completion, every cluster region is a simple region that is starshaped with respect to the reference point of the cluster and all its kernel points. The reference point is in its interior.',
     ['inputs', 'histories', 'configurations'], 'for every scene, history and option combination', T_SCENE,
     [('starshaped hull', HU + ':kernel_starshaped_hull'), ('reference point', CL + ':cluster_and_starify')],
     'All segments from the reference and kernel points to all vertices and edge midpoints of the region must stay in the region.',
     'Tolerance: gap of the polygon representation of member ellipses.')
prop('C05', 'Cluster region is exactly members plus their starshaped hulls',
     'The region of a resulting cluster is the union of its members and of the smallest starshaped extension of each member for the reported kernel points, nothing missing and nothing added. If the cluster has been convexified it is the convex hull of that.',
     ['inputs', 'histories', 'configurations'], 'for every scene, history and option combination', T_SCENE,
     [('hull of list of obstacles', HU + ':kernel_starshaped_hull'), ('combination', PC)],
     'Reference region from generator parameters: convex hull with kernel points for convex members, union of all edge-kernel hulls for polygons; compared by area, distance and point location at sampled points in and out.',
     'Region comparison within the polygon representation gap.')
prop('C06', 'Kernel points are admissible, well placed and bounded in size',
     'The kernel points of a resulting cluster form an equilateral triangle of side at most the requested width, inside the set of positions for which the hull excludes robot and goal. They are in the common kernel of the members if that has an admissible part, otherwise inside the members if possible; their centre is the reference point and not in line with robot and goal.',
     ['inputs', 'histories', 'configurations'], 'for every scene, history and option combination', T_SCENE,
     [('selection set', CL + ':compute_kernel_points'), ('largest triangle', CG + ':equilateral_triangle')],
     'Reference shadow sectors (reflected views of the members from robot and goal), reference kernels by half-plane clipping, reference selection set by overlay; full requested size required whenever the centre has room for it.',
     'Selection sets of negligible area are not judged.')
prop('C07', 'Clusters keep reference point and identity over time',
     'When the clusters of the previous step are given and a cluster has the same members, its kernel centre is unchanged as long as it is still in the selection set, and otherwise stays on the same side of the line from robot to goal if possible. The resulting obstacle keeps the identity of the previous one, regardless of the order in which obstacles were merged, and no two clusters of a result have the same identity.',
     ['histories', 'inputs'], 'for every sequence of small motions of robot, goal and obstacles', 'Existing tests never pass previous clusters over several steps with a reference judgement.',
     [('lookup of previous cluster', CL + ':extract_cluster'), ('centre selection', CL + ':compute_kernel_points')],
     'Histories of 2-6 steps with obstacle lists reordered and clusters crossing the robot-goal line; centre, side and identity compared with the previous step and the reference selection set.',
     'Identity is claimed for combination obstacles.')
prop('C08', 'Completion flag, round limit and fallback results are truthful',
     'Clustering reports completion exactly when no resulting clusters intersect: pairwise disjoint convex obstacles are complete in one round, and a robot or goal that cannot be excluded, or a round limit below the rounds needed, gives an incomplete result. An incomplete result is every obstacle as its own cluster, has no influence when given as previous clusters, and the documented values are returned in every case.',
     ['inputs', 'configurations'], 'for every scene and every round limit', T_SCENE, [('exit conditions', CL + ':cluster_and_starify')],
     'Constructed situations with known outcome (disjoint convex, inside, pocket, enclosing ring) and general scenes run with every limit 0..rounds needed.',
     'Situations are built so that the outcome is decided by the reference geometry with margin.')
prop('C09', 'Compute time limit ends the call in an admissible way',
     'Whenever the time budget runs out during clustering, the call ends without starting another round and returns either single obstacle clusters flagged incomplete, or a valid complete clustering flagged as such or as out of time in convexification. Without expiry the result is the one of an unlimited call.',
     ['fault_sequences', 'crash_points', 'inputs'], 'for every point of the computation at which the budget can expire', 'The tests use real clocks and generous budgets: an expiry between two given steps is never produced.',
     [('time checks', CL + ':cluster_and_starify'), ('clock', 'utils/misc.py:toc')],
     'The wall clock is replaced by a virtual one; each run is repeated with the expiry placed at every clock reading in turn (fault enumeration), and flag, clusters, rounds after expiry are judged.',
     'Clock readings are the fault points; the quick tier samples evenly when there are more than 72.')
prop('C10', 'Convexification replaces clusters by convex hulls exactly when safe',
     'With convexification requested, every resulting cluster region is either the unmodified one or its convex hull, and it stays unmodified only if it is convex already or its hull contains robot or goal or meets another cluster. The partition, the exclusion of robot and goal and disjointness are unaffected.',
     ['inputs', 'histories', 'configurations'], 'for every scene and option combination', T_SCENE, [('convexification', CL + ':cluster_and_starify'), ('convex hull', CG + ':convex_hull')],
     'The same call with and without convexification under the same random seed; regions compared with the convex hull of the reference; every omission needs one of the named reasons.',
     'Regions convex up to 1e-3 are treated as either.')
prop('C11', 'Workspace attracts or leaves references as specified',
     'A cluster not contained in the given workspace gets its kernel points in the part of its region outside the workspace, if robot and goal can be excluded from there. Clusters contained in the workspace are the same as without a workspace.',
     ['inputs', 'configurations'], 'for every workspace (ellipse or polygon, posed arbitrarily) and scene', 'No test passes a workspace other than the default one with a reference judgement.',
     [('workspace condition', CL + ':compute_kernel_points')], 'Independent overlay of admissible region, cluster and complement of the workspace; comparison with the run without workspace under the same seed.',
     'Only judged when the reference area is clear (more than 1e-2 of the obstacle size squared).')
prop('C12', 'Exclusion of other obstacles in hulls',
     'With exclusion of obstacles requested, the extension of a merged cluster leaves out all corners of every other obstacle which can be left out together with robot and goal. Clusters of a single obstacle are unaffected.',
     ['inputs', 'configurations'], 'for every scene with merged clusters', 'No test inspects the hull with the exclusion option.',
     [('exclusion cones', CL + ':cluster_and_starify')], 'Reference admissible set including the corners of all excludable obstacles; if it has an area, the kernel points must be inside; runs without overlap compared with the option off.',
     'Corners are those of the polygon representation.')
prop('C13', 'Clustering progresses, is repeatable and independent of order and position',
     'Every round makes the partition strictly coarser, so that there are at most as many rounds as obstacles. The same input gives the same clusters again, for any order of the obstacles, and a shifted scene gives the shifted clusters.',
     ['inputs', 'histories', 'schedules'], 'for every scene, every permutation of the obstacle list and every translation', T_SCENE, [('merging loop', CL + ':cluster_and_starify'), ('grouping', CL + ':get_intersection_clusters')],
     'Recorded history checked round by round; metamorphic reruns (same, permuted, shifted) compared by partition and kernel points; a step budget on executed lines decides termination.',
     'Scenes with exact ties between symmetric alternatives are not used for order and shift comparisons.')
prop('C14', 'Merging groups exactly the connected components',
     'The merging step returns the connected components of the graph of intersecting cluster regions: each cluster whose region meets another, directly or through others, ends up in one group with it, and no other does. It reports whether there was any intersection.',
     ['inputs'], 'for every list of clusters in any order', T_SCENE, [('grouping', CL + ':get_intersection_clusters')],
     'Reference union-find over all pairwise intersections, for chains, grids, stars and random arrangements in shuffled order.', 'Pairs within 1e-9 of touching are skipped.')
prop('C15', 'Admissible kernel is exact for one obstacle and one point',
     'The admissible kernel of an obstacle for an excluded point contains exactly the positions whose starshaped extension of the obstacle leaves out the point. It does not exist exactly for points that are not free exterior points.',
     ['inputs'], 'for every obstacle, pose, excluded point and candidate position', 'The tests only plot cones for two obstacles.', [('admissible kernel', HU + ':admissible_kernel'), ('cone', CG + ':Cone')],
     'Candidate positions at 1e-2..1e4 classified against the reflected view computed from generator parameters and against the exact starshaped hull.', 'Positions closer than 1e-4 rad to a limiting ray are skipped.')
prop('C16', 'Starshaped hull of convex obstacles is the convex hull with the kernel points',
     'For convex obstacles, obstacle and extension together are the convex hull of the obstacle and the kernel points; there is no extension if all kernel points are inside. For lists it is the union over the list.',
     ['inputs'], 'for every convex obstacle, pose and set of kernel points', 'The tests check a few fixed shapes without numeric comparison.', [('convex hull construction', HU + ':convex_kernel_starshaped_hull')],
     'Overlay comparison with the convex hull of the reference shape and points for 1-5 kernel points in, out, near, far and axis aligned.', 'Area tolerance proportional to the polygon representation gap.')
prop('C17', 'Starshaped hull of non-convex polygons is exact',
     'The starshaped hull of a polygon for given kernel points is exactly what its boundary sweeps when moved towards the kernel points: it covers polygon and kernel points, is starshaped for each of them and contains nothing else. It is the polygon itself if the kernel points are in its kernel.',
     ['inputs'], 'for every simple polygon, pose, vertex order and kernel point set', 'The tests compute hulls of random polygons but compare with nothing.', [('polygon hull', HU + ':polygon_kernel_starshaped_hull'), ('list hull', HU + ':kernel_starshaped_hull')],
     'Reference union of the convex hulls of each edge with the kernel points; visibility of all boundary points checked directly.', 'Kernel points in line with an edge (1e-4) are not generated.')
prop('C18', 'Kernel of a starshaped obstacle is exact',
     'The kernel of a starshaped polygon is exactly the set of points that see the whole polygon, in either frame and for any order of the vertices; for convex obstacles it is the obstacle. The default reference point is in it.',
     ['inputs'], 'for every starshaped polygon and pose', T_OBST, [('kernel computation', SP + ':_compute_kernel'), ('kernel cache', SO + ':kernel')],
     'Reference half-plane clipping over all edges; direct visibility checks of points in and next to the kernel.', 'Kernels thinner than 1e-3 are compared with a wider tolerance.')
prop('C19', 'Cones: membership, region and intersections are consistent',
     'A cone contains exactly the points in directions between its two rays counter-clockwise, and its region agrees within its clipping distance. Intersections of two or more cones contain exactly the points in all of them.',
     ['inputs'], 'for all apexes, directions, openings and lists of cones', 'The tests plot a few cones.', [('cone', CG + ':Cone')],
     'Angular interval reference at points 1e-1..1e4 from the apex, pairs and lists with the same or different apexes.', 'Points closer than 1e-4 rad to a ray are skipped.')
prop('C20', 'Point location agrees with the occupied region',
     'For every obstacle class, pose and frame a point is reported interior, boundary or exterior exactly as it lies with respect to the region of the obstacle.',
     ['inputs'], 'for every obstacle, pose, frame and point', T_OBST, [('point location', EL + ':point_location'), ('point location', PO + ':point_location'), ('base', OB + ':interior_point')],
     'Signed distance reference from generator parameters; probes in, out, close, on the boundary and aligned with extreme coordinates.', 'Points between 0 and the numeric band of the boundary are skipped.')
prop('C21', 'Line intersections are sound and complete',
     'The intersection of a segment with an obstacle boundary returns exactly the points where the segment crosses the boundary, in the requested frame.',
     ['inputs'], 'for every obstacle, pose, segment and frame pair', T_OBST, [('ellipse', EL + ':line_intersection'), ('polygon', PO + ':line_intersection')],
     'Closed form crossings compared as sets; vertical, steep, central, long and short segments, segments along edges.', 'Tangential segments are skipped by margin.')
prop('C22', 'Tangent points support the obstacle',
     'For a free exterior point the tangent points are the two boundary points whose rays bound the view of the obstacle, right one first as seen from the point; for other points there are none.',
     ['inputs'], 'for every obstacle, pose, point and frame pair', T_OBST, [('ellipse', EL + ':tangent_points'), ('polygon', PO + ':tangent_points')],
     'Closed form for ellipses and unwrapped viewing angles of all vertices for polygons; includes pockets and vertical tangents.', 'Order is judged by orientation with the viewpoint.')
prop('C23', 'Boundary mapping, distance function and reference direction are consistent',
     'The boundary mapping of a starshaped obstacle is the unique boundary point on the ray from the reference point through the given point. The distance function is less than, equal to or greater than one for interior, boundary and exterior points and scales along rays, and the reference direction is the unit vector along that ray.',
     ['inputs'], 'for every starshaped obstacle, admissible reference point, pose, point and frame pair', T_OBST,
     [('mapping', SP + ':boundary_mapping'), ('mapping', EL + ':boundary_mapping'), ('distance', SO + ':distance_function')],
     'Ray exit of the reference shape; scaling and sign checks of the distance function; dilated obstacles and moved reference points included.', 'The reference point itself is excluded.')
prop('C24', 'Normals are outward unit normals of the boundary',
     'The normal of a starshaped obstacle at a boundary point, or at the boundary point on the ray through any other point, is a unit vector pointing out of the obstacle: the surface normal of the ellipse or of the polygon edge hit, in the requested frame. The smoothed polygon normal is a unit vector between the normals of the adjacent edges.',
     ['inputs'], 'for every starshaped obstacle, reference point, pose, point and frame pair', T_OBST, [('ellipse', EL + ':normal'), ('polygon', SP + ':normal')],
     'Analytic ellipse gradient; normal of the edge hit by the ray in the reference polygon; cone of the normals of neighbouring edges for the smoothed one.', 'Points within 1e-4 of a vertex are skipped for the edge normal.')
prop('C25', 'Frames and poses are consistent',
     'Every query with a position, direction or region in the obstacle frame or the global frame gives the same geometry related by the rotation and translation of the pose of the motion model, and the frames coincide without motion model. Transforming a point forth and back is the identity.',
     ['inputs', 'configurations'], 'for every obstacle, pose, query and frame combination', T_OBST, [('transform', OB + ':transform'), ('affine map', CG + ':affine_transform')],
     'Reference rigid motion applied to positions, directions, polygon, kernel, reference point, extreme points, for obstacles with and without pose.', 'Positions and directions are single points; arrays of points are not judged.')
prop('C26', 'Queries always reflect the current pose, shape and reference point',
     'After any sequence of moves, pose changes, reference point changes and queries, every query answers as it would for a newly created obstacle with the same shape and current pose.',
     ['histories', 'schedules'], 'for every interleaving of pose changes and queries on one obstacle', 'The tests never query before and after a motion.', [('caches', OB + ':polygon'), ('kernel cache', SO + ':kernel'), ('vertex angles', SP + ':_update_vertex_angles')],
     'Random histories of 6-25 operations; after each operation a random selection of queries is compared with the reference body at the current pose and with a fresh obstacle.', 'Dilated copies and lazily computed values are queried in random order.')
prop('C27', 'Shape predicates and area are correct',
     'Obstacles report convexity, starshapedness and area as of their region, for any order, orientation and repetition of vertices, and their polygon representation is that region (for ellipses, an inscribed polygon with the requested number of corners up to a fixed margin).',
     ['inputs'], 'for every simple polygon and ellipse', T_OBST, [('convexity', PO + ':_check_convexity'), ('starshaped', OB + ':is_starshaped'), ('representation', EL + ':_compute_polygon_representation')],
     'Turn test with margin, half-plane kernel and shoelace area of the generated vertices.', 'Shapes within a small margin of being convex (turns below 1e-3, except for exactly collinear vertices) are skipped; general polygons are reported starshaped only when convex, as documented by the class split.')
prop('C28', 'Dilated obstacles enclose the padded obstacle tightly',
     'A dilated polygon covers exactly the points within the padding distance of the original, and a dilated ellipse is the ellipse with both semi axes enlarged by the padding; pose and reference point are those of the original, and the original is unchanged. All queries on the dilated obstacle agree with its own region.',
     ['inputs', 'histories'], 'for every obstacle, pose and padding', 'The tests only draw dilated obstacles.', [('dilation', EL + ':dilated_obstacle'), ('dilation', PO + ':dilated_obstacle'), ('dilation', SP + ':dilated_obstacle')],
     'Reference offset region; sampled boundary points at known distance; all queries compared with the region of the dilated obstacle itself.', 'The offset curve of the overlay library is accurate to about 3 percent of the padding. Kernels of dilated polygons are compared only when no edge is shorter than 1e-4 of the size.')
prop('C29', 'Identities of obstacles and copies',
     'New obstacles get identities distinct from all earlier ones, temporary copies are marked as such and duplicates keep the identity of the original. A copy has the same shape, pose and reference point.',
     ['histories'], 'for every sequence of creations, copies and dilations', T_OBST, [('identity', OB + ':_set_id_name'), ('copy', EL + ':copy'), ('copy', SP + ':copy')],
     'Random histories of creations and copies; identity registry reference; copies compared query by query with the original.', 'Identity given explicitly by the caller is kept as given.')
prop('C30', 'Setting the reference point',
     'Setting the reference point in any frame makes all later queries use it. With safe setting a reference point that is not in the kernel is not accepted, so that the obstacle stays starshaped with respect to its reference point.',
     ['inputs', 'histories'], 'for every obstacle and requested reference point', T_OBST, [('setter', SO + ':set_xr')],
     'Reference kernel depth decides the expected outcome; boundary mapping and distance function are compared with the new ray origin.', 'Points within 1e-4 of the size of the kernel boundary are skipped.')
prop('C31', 'Motion models follow their prescribed trajectories',
     'A moved obstacle follows its motion model: static stays, sinusoidal motion integrates the prescribed velocity, interval motion passes the given positions at the given times and afterwards returns to the last one when it is moved away, waypoint motion heads for the waypoints in order with the given speed.',
     ['histories', 'inputs'], 'for every parameter set and every sequence of time steps', 'The tests never move an obstacle.', [('integration', MM + ':MotionModel.move'), ('models', MM)],
     'Independent integrators written from the documentation, run in lockstep over random step sequences.', 'First order integration as documented by the code is the specification.')
prop('C32', 'Velocity of obstacle points follows rigid body motion',
     'The velocity of an obstacle in a given direction, in the global frame, is the linear velocity of its motion model plus its angular velocity times the unit vector perpendicular to the reference direction of the point, and zero without motion model. For a combination it is the velocity of the member whose boundary is hit from the reference point.',
     ['inputs', 'histories'], 'for every obstacle, motion state and point', T_OBST, [('velocity', SO + ':vel_intertial_frame')],
     'Reference from linear and angular velocity of the motion model; combinations use the member hit.', 'The rotational part acts on the unit reference direction (not the lever arm), as designed upstream. Hits on the hull of a combination are not judged.')
prop('C33', 'A combination of primitives behaves as the union it stands for',
     'Point location, boundary mapping, distance function, line intersection, normals, kernel and region of a combination obstacle are those of the union of its members and hull, with the given reference point. Without a hull, its tangent points are the outermost ones of its members.',
     ['inputs', 'histories'], 'for every cluster produced by clustering or built by hand and every query', 'The tests only draw combinations.', [('combination', PC)],
     'Union of reference member regions and exact hull; farthest ray exit; all crossings; grid points of unions of boxes with exact coordinates; outermost tangents, also of more than a hundred members; normals from member or hull edge hit.', 'Points within the gap of the polygon representation are skipped. Tangent points of combinations with a hull (left out by the code, as it notes) and dilation of combinations are not judged.')
prop('C34', 'Queries and clustering do not modify what they are given',
     'No query, derivation of a copy or dilated obstacle, or clustering call changes its array arguments, the given obstacles, the previous clusters or earlier results; calling again gives the same answer. (Clustering may move the reference point of a given obstacle that becomes a cluster of its own.)',
     ['histories', 'inputs'], 'for every call and every order of calls', 'No test compares state before and after.', [('transform copies', OB + ':transform'), ('clustering', CL + ':cluster_and_starify')],
     'Deep fingerprints of arguments and obstacles around every call; repeated calls compared; obstacles made from kept arrays compared with fresh ones after deriving copies and dilated obstacles.', 'Lazily filled caches are not part of the fingerprint, answers are.')
prop('C35', 'Geometric predicates and line operations are correct',
     'Orientation, collinearity, betweenness and the intersections of lines, segments and rays agree with exact geometry, symmetric where geometry is.',
     ['inputs'], 'for all points and lines away from degenerate cases, and for exact degenerate cases', 'The tests use a few fixed points.', [('predicates', CG + ':orientation_val'), ('lines', CG + ':Line')],
     'Exact rational arithmetic reference.', 'Inputs within rounding of a decision boundary are skipped unless exact. The yes/no crossing tests are judged for segments in general position; intersection points also for touching and overlapping segments.')
prop('C36', 'Convex hull and triangle construction',
     'The convex hull of points is the convex polygon with exactly their extreme points in cyclic order. The equilateral triangle has the given centre, side and rotation.',
     ['inputs'], 'for all finite point sets including repeated and collinear points', 'The tests use random points without reference.', [('hull', CG + ':convex_hull'), ('triangle', CG + ':equilateral_triangle')],
     'Reference monotone chain in exact arithmetic; geometric identities of the triangle.', 'Termination is decided by a step budget.')
prop('C37', 'Random shape generators give valid shapes',
     'Generated convex polygons are convex with the requested number of vertices, fit into the given box extents and have their vertex mean at the origin. Generated star polygons have the requested number of vertices in angular order around the centre within twice the average radius, are regular for zero irregularity and spikiness, see their centre when consecutive vertex angles are below a half turn, and are refused for parameters outside [0, 1]. Angle steps add up to a full turn within their limits, and random points in a triangle lie in it and spread over all of it.',
     ['inputs'], 'for all parameters and random states', 'The tests plot one generated shape.', [('generators', CG + ':generate_convex_polygon'), ('generators', CG + ':generate_star_polygon')],
     'Properties judged on the generated vertices for random parameters and seeds.', 'The distribution is only judged coarsely (spread over a triangle within six sigma, fixed seeds).')
prop('C38', 'Drawing shows the current geometry',
     'Drawn patches and updated plots show the region and reference point of the obstacle at its current pose, and cluster drawings show every obstacle, hull and position.',
     ['histories', 'configurations'], 'for every obstacle, pose history and frame', 'The tests draw but inspect nothing.', [('drawing', EL + ':draw'), ('updates', PO + ':update_plot'), ('polygons', 'utils/misc.py:draw_shapely_polygon'), ('cluster drawings', CL + ':draw_clustering')],
     'The artists created by matplotlib (headless) are read back and compared with the reference region at the current pose.', 'Styling and holes of regions are not judged. Combination plots are not updated after construction (no update is offered upstream).')
