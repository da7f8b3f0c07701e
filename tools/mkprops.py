import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
B='bpypolyskel/bpypolyskel.py';G='bpypolyskel/poly2FacesGraph.py';U='bpypolyskel/bpyeuclid.py'
p('C01','Concurrent roof computations do not influence each other',
 'When several threads compute roofs or skeletons at the same time, each on its own vertex list and face list, every call returns and appends exactly what it does when it runs alone. This holds under every interleaving, also when the calls share read-only inputs (the same vertex objects, unit vectors, hole descriptions or edge contours), and when other calls fail or are aborted in between.',
 ['schedules','inputs'],'every interleaving of any number of calls of polygonize() and skeletonize() in different threads, at any point between two bytecodes, on any mix of footprints',
 'The tests run one call per process and file, in one thread; no test has two calls in flight, so state shared between calls is never exercised.',
 [B,G,U],[('all working state is local to the call (queue, list of active vertices, graph, faces)',B+': skeletonize, polygonize'),('graph object created per call',B+': polygonize'),('geometry objects created per call',U)],
 ['return value of polygonize()/skeletonize()','entries appended to verts and faces'],
 [('debugOutputs','the only mutable module-level state',B),('default centre','a shared default argument',U+': Edge2.__init__')])
p('C02','A roof depends only on its footprint and arguments, not on history',
 'The vertices and faces that a call adds depend only on the footprint, holes, heights and other arguments of that call. They do not depend on which calls ran before (successful, failed or aborted), on what callers did with earlier results, on how many vertices and faces the shared lists already hold, or on where in the vertex list the footprint and its holes lie; only the vertex indices in the faces shift accordingly.',
 ['histories','inputs','configurations'],'every sequence of calls, failed calls and caller-side changes of earlier results in one process, and every position of the footprint in the vertex list',
 'Every test file makes one call with one layout of the vertex list. A history of calls, or the same footprint at another position, is never tried.',
 [B,G,U],[('no memory between calls',B),('faces are traced in the order of insertion of the edges, not in the order of a set',G+': faces, add_edge'),('working copy relative to the centre of the footprint',B+': polygonize')],
 ['return value of polygonize()/skeletonize()','entries appended to verts and faces'])
p('C03','An aborted call reports the abort and leaves nothing behind',
 'If a call is hit by an exception at any instant (keyboard interrupt, memory or stack exhaustion, a timeout raised by a signal handler, cancellation, a failing output list), the call ends with that exception: it never returns normally with an incomplete or different result. Afterwards, with no clean-up, retrying the same call and making any other call works exactly as if the abort had not happened, in every thread, and the settings of the process (garbage collector, recursion limit, signal handlers, standard streams and the like) are what they were.',
 ['crash_points','fault_sequences','histories'],'every instant within a call at which an exception can be delivered, every kind of exception, every sequence of aborts and retries',
 'No test interrupts a call or makes an allocation fail; a handler that swallows the exception or a flag left set would pass all of them.',
 [B,G,U],[('no handler catches anything',B),('all working state dies with the frame of the call',B+': polygonize, skeletonize')],
 ['exception or return value of the aborted call','results of the following calls'])
p('C04','Output lists are only appended to, each in one step',
 'During a call and after it, whether it succeeds, fails or is aborted, the entries the caller already had in the vertex list and in the face list keep their identity, value and position. At every instant, seen from any thread, the vertex list has either its old length or all new vertices, and the face list either its old length or all faces of the finished roof, in final form and never ahead of the vertices they refer to; a call that fails adds no face, and one that is aborted adds none or, if the abort comes after its very last step, all.',
 ['schedules','crash_points','fault_sequences','inputs'],'every instant of a call as seen by a concurrent observer, every abort point, every failing or torn extension of the output lists',
 'The tests look at the lists only after a successful call, so a partially filled list, a temporary change or faces published before they are final cannot be seen.',
 [B],[('the new vertices are collected first and added with one extend',B+': polygonize'),('the cleaned faces are added with one extend at the very end',B+': polygonize')],
 ['verts and faces, sampled while the call runs and after it'])
p('C05','Re-entrant calls work at any point of a running call',
 'While a call is running, another call can start in the same thread at any point (from a signal handler, a finaliser, a callback) and run to its end. Both calls complete, without deadlock, with exactly the results they have when they run alone; this also holds when the nested call fails.',
 ['schedules','inputs'],'every point of a running call at which a nested call can start, every pair of calls, nested failures included',
 'No test starts a call within a call. Locks that are not re-entrant or thread-local scratch data would pass all tests.',
 [B,G,U],[('all working state is local to the frame of the call',B),('no locks are held',B)],
 ['return values of the outer and the nested call'])
p('C06','Roof is complete in whatever order simultaneous events are taken',
 'Events of the roof construction that fall at the same time may be taken from the queue in any order. For every footprint of the supported corpus, the resulting roof is complete under every such order: the call succeeds, every contour edge is an edge of exactly one face, every other face edge is shared by exactly two faces in opposite directions, no face uses a vertex twice, and the faces together cover the area of the footprint exactly.',
 ['schedules','inputs'],'every order of events of equal time in the event queue, for the footprints of the corpus in all rotations of their starting vertex',
 'The tests execute one order per footprint and check neither that the faces cover the footprint nor that contour edges are preserved.',
 [B,G],[('priority queue ordered by distance; events of (nearly) equal distance are taken together',B+': _EventQueue, skeletonize'),('events of vertices that are no longer active are skipped',B+': skeletonize'),('a failing split event is replaced by an equivalent edge event',B+': handle_split_event')],
 ['return value of polygonize(), verts'])
p('C07','A call finishes in bounded steps, whatever other calls do',
 'A call never waits for another one: if any number of other calls are suspended for ever at arbitrary points (or died there through an abort), it still completes, in about the number of its own steps that it needs when it runs alone. The number of steps a call needs does not grow with the number of earlier calls or with the amount of data already in the lists.',
 ['schedules','crash_points','histories'],'every set of suspension points of other calls; every history of calls, with lists grown by earlier calls',
 'The tests have a wall-clock limit for a single call alone; no test suspends a concurrent call or makes many calls.',
 [B,G],[('no lock, no waiting, no shared work queue',B),('loops run over data of the call only',B+': skeletonize, polygonize')],
 ['completion and number of executed steps of each call'])
p('C08','Debug output is the complete skeleton of a finished computation',
 'If the caller has put the key "skeleton" into the debug dictionary, then after a successful polygonize() its value is the skeleton of that call: the same as skeletonize() returns for the same contours, with one node per appended vertex, in their order. At every instant, whatever calls run concurrently or are aborted, the value is either what the caller put there or the complete skeleton of one call, never a partial one, and the key never disappears; the value is not changed by later calls; and without the key the dictionary is left alone, as are all its other keys.',
 ['schedules','crash_points','histories'],'every interleaving and abort point of calls with debug output on or off, every history of switching it on and off',
 'The tests set the key and check only that the edges of the final value do not cross, once, in one thread.',
 [B],[('assigned once, after the skeleton is complete',B+': polygonize'),('only assigned if the key is present',B+': polygonize')],
 ['bpypolyskel.debugOutputs'])
p('C09','Inputs are never modified, not even temporarily',
 'polygonize() and skeletonize() never change the footprint vertices, unit vectors, hole descriptions or contour edges they are given: at every instant of a call, seen from any thread, and after its end or abort at any point, these objects have the values and identities the caller gave them. The same input objects can therefore be used by any number of concurrent and later calls, in a modified vertex list too.',
 ['schedules','crash_points','inputs'],'every instant of a call as seen by a concurrent observer, every abort point',
 'The tests never look at the inputs after a call, and no test can see a change that is undone before the call returns.',
 [B,U],[('Edge2 makes its own 2D copies relative to the centre',U+': Edge2.__init__'),('unit vectors are copied',U+': Edge2.__init__'),('the centre is computed in a new vector',B+': polygonize')],
 ['the argument objects, sampled while the call runs and after it'])
p('C10','The demo always shows the roof of the current pitch',
 'After any sequence of slider changes in the demo, the axes show exactly the outline of the roof for the current pitch and nothing of earlier ones; this also holds when earlier redraws failed or were interrupted at any point. The cost of a redraw does not grow with the number of redraws, and the demo footprint itself never changes.',
 ['histories','crash_points','fault_sequences'],'every sequence of slider events, with redraws failing or being interrupted at any point',
 'There is no test of the demo.',
 ['demo.py',B],[('the axes are cleared before each redraw','demo.py: create_roof'),('a new face list for every redraw','demo.py: FACES is None'),('redraw on every slider change','demo.py: run_demo')],
 ['lines and limits of the axes after each event'])
p('C11','The Blender add-on survives any session of its operator',
 'In any session of enabling, disabling, adding demo objects with any scale from 0.25 to 4 per axis, undoing and redoing, every added object has the mesh determined by its scale alone: side walls and roof closed along every top edge, all indices valid. An operation that fails at any point (an error from Blender or an interrupt) adds no object and does not affect later operations; after disabling, nothing of the add-on remains registered, and it can be enabled again.',
 ['histories','crash_points','fault_sequences'],'every sequence of add-on and operator actions, every point of failure in the host API or in the roof computation',
 'There is no test of the add-on; it needs Blender.',
 ['__init__.py',B],[('all lists are built new in each execution','__init__.py: add_object'),('the object is linked last','__init__.py: add_object'),('register and unregister mirror each other','__init__.py: register, unregister')],
 ['scene content, registered classes, menu entries and manual maps of the host'])
p('C12','The OSM download tool succeeds only with a complete set of files',
 'If the download tool ends successfully, then for each entry of the log that is not marked "Flat roof" or "Not hipped roof", the last line included whether or not it ends with a newline, exactly one request for that element has been made, in log order, and the file named after its id holds the complete answer of the server; nothing is requested for the other entries. If a transfer or a write fails, the tool ends with an error, without touching files of other entries; once the faults stop, running it again completes the set.',
 ['fault_sequences','crash_points','inputs','histories'],'every log, every sequence of network faults (refused, reset, truncated, delayed, fragmented, error status) and disk faults (full disk, I/O error, short write) at any point, every number of re-runs',
 'There is no test of the tool; it needs the network.',
 ['misc/get_osm_files.py'],[('marked entries are skipped','misc/get_osm_files.py: loop over the log'),('a short transfer raises','urllib.request.urlretrieve'),('no error is swallowed','misc/get_osm_files.py')],
 ['requests seen by the server, files in the output folder, exit status'])
p('C13','The test generator imports each OSM file exactly once, fully set up',
 'If the test generator ends successfully, it has imported every file in the configured folder exactly once, whatever order the folder is listed in, and each import ran with the file path of that file and with all configured settings and the host add-on in place. If the configuration cannot be read completely, nothing is imported; if an import fails, the generator ends with an error instead of success.',
 ['schedules','fault_sequences','inputs'],'every listing order and content of the folder, every fault of the configuration file, of the folder listing and of the host',
 'There is no test of the generator; it needs Blender and the blender-osm add-on.',
 ['misc/generate_pytest_scripts.py'],[('configuration is read first','misc/generate_pytest_scripts.py: json.load'),('settings are stored before the loop','misc/generate_pytest_scripts.py'),('one import per listed file','misc/generate_pytest_scripts.py: loop')],
 ['imports seen by the host with the settings at that time, exit status'])
p('C14','The same call gives the same result in every process',
 'The same arguments give identical vertices and identical faces, in the same order, in every process: the result does not depend on the hash seed of the interpreter, on memory addresses or on the time of garbage collection, on the order in which unordered collections happen to be iterated, nor on environment variables, command line, working directory, number of processors, flags of the interpreter, the thread the call is made in, a fork after the import or other modules of the host.',
 ['schedules','configurations','inputs'],'every hash seed, memory layout, garbage collection schedule and iteration order of unordered collections',
 'The tests run with one fixed hash seed and compare no result with another run.',
 [B,G,U],[('ordered containers decide all orders',G+': faces, circular_embedding'),('ties in the queue are resolved by insertion order only',B+': _EventQueue')],
 ['return value of polygonize()/skeletonize() across processes'])
p('C15','A mesh of many buildings is the union of their roofs',
 'When buildings are roofed one after the other into the same vertex and face lists, in any order, with some calls failing or being aborted at any point and some being retried, the final lists contain, for each building whose call succeeded, exactly one roof, equal to the one it gets alone; its faces refer only to its own footprint and its own new vertices. Buildings whose calls did not succeed contribute no face (or the whole roof, if the abort came after the very last step of the call), and faces of finished buildings are never changed by later calls.',
 ['histories','crash_points','fault_sequences'],'every sequence of buildings, failures, aborts and retries on one pair of lists',
 'Each test has one building in its own list.',
 [B],[('new vertices are addressed relative to the length of the list before they are added',B+': polygonize'),('faces are extended only on success',B+': polygonize')],
 ['verts and faces after each call and at the end'])
p('C16','Roof heights follow the slope in whatever order events are taken',
 'For every footprint of the supported corpus and every order of simultaneous events, no new vertex lies below the footprint plane; with a given height the highest new vertex lies exactly that high above the footprint, height taking precedence over the tangent; with a given tangent the heights are proportional to it, and flat if both are zero. Each face rises from its contour edge with that slope, for the footprints of the corpus without merged nodes. The horizontal layout of vertices and the faces do not depend on height and tangent.',
 ['schedules','inputs'],'every order of events of equal time, every height and tangent, for the footprints of the corpus',
 'All tests call with tangent 0.5 and look at no height.',
 [B],[('heights are distances of events, scaled by one factor',B+': polygonize'),('the factor is height over largest distance or the tangent',B+': polygonize')],
 ['z-coordinates of appended vertices'])
p('C17','Finished calls are forgotten',
 'When a call of polygonize() or skeletonize() has ended, by return, by failure or by an abort at any point, the library keeps nothing of it: no reference to the lists, vertices, unit vectors, hole descriptions or edges it was given, nor to the vertices, faces and skeleton nodes it made, nor any working data (the skeleton in the debug dictionary excepted, if asked for). Once the caller drops it, all of it is released, by the garbage collector at the latest, and what the library holds does not grow with the number of calls.',
 ['histories','crash_points','fault_sequences'],'every history of successful, failed, aborted and nested calls, every abort point',
 'Each test process makes one call and ends; nothing that stays behind can matter to it. In a session that roofs a city, it does.',
 [B,G,U],[('all working state dies with the frame of the call',B+': skeletonize, polygonize'),('no module-level containers except debugOutputs',B)],
 ['live objects and containers reachable from the modules after a call'],
 [('debugOutputs','the only mutable module-level state',B),('default centre','a shared default argument',U+': Edge2.__init__')])
p('C18','The library works across fork',
 'A process may fork at any point: while calls are running in other threads, and in the middle of a call itself (as multiprocessing does). In the child, where the other threads no longer exist, the running call is completed and all later calls complete, with exactly the results they have alone; the same holds for the parent, which goes on undisturbed.',
 ['schedules','crash_points','histories'],'every point of a call at which the process can fork, every state of the calls in other threads at that moment',
 'No test forks, or has two threads. A lock or a worker thread of the library would leave every child hanging without any test noticing.',
 [B,G,U],[('no locks, no threads, no state outside of the call',B)],
 ['results of calls in the child and in the parent'])
p('C19','Results do not depend on time',
 'The result of a call does not depend on how long it takes or is suspended, nor on clocks: a call that is interrupted for any length of time at any points, once or many times, while the wall clock is set forward or back, gives exactly the result that it gives when it runs through.',
 ['schedules','fault_sequences','inputs'],'every set of suspension points and lengths, every jump of the wall clock',
 'The tests run each call through at full speed; a time limit that degrades the result on a slow or suspended machine would pass them.',
 [B,G],[('no clock is read and no time limit exists',B+': skeletonize, polygonize')],
 ['return value of polygonize()/skeletonize()','entries appended to verts and faces'])
p('C20','Calls have no side effects',
 'Importing the library and calling polygonize() or skeletonize() changes nothing but the output lists (and the debug dictionary, if asked for): at no instant, however a call ends and whatever runs concurrently, is anything written to the standard streams or to files, a process or thread started or the network used, nor are settings changed that other threads see (garbage collector, recursion limit, random numbers, warning filters, signal handlers, trace functions, streams, working directory, environment, attributes of other modules). Several copies of the library in one process, as add-ons bring their own, do not influence each other.',
 ['schedules','crash_points','histories'],'every instant of every call, alone and concurrent with others, successful, failed and aborted, in any number of copies of the library',
 'Tests look at return values; output, a setting that is changed for the duration of a call, or a patched module go unnoticed.',
 [B,G,U],[('no input or output in the functions',B),('only functions, classes and the debug dictionary at module level',B),('relative imports, so each copy has its own classes',B+': from .bpyeuclid import *')],
 ['settings of the process and audit events, sampled while calls run'])
# pure functions: not applicable
def n(id,title,statement,files,mech):
    p(id,title,statement,['inputs'],'every valid footprint with holes',
      'The tests sample about 200 footprints and check face length and repeated vertices only.',files,mech,['return value'])
p('C21','Skeleton is sound in whatever order simultaneous events are taken',
 'Events of skeletonize() that fall at the same time may be taken from the queue in any order. For every footprint of the supported corpus (those without dormers), under every such order, the call succeeds and returns a skeleton in which no two nodes coincide, every sink is a node or a corner of the contours, every corner is the sink of exactly one node, all nodes and corners are connected, with one cycle for each hole and none otherwise, no two arcs cross, and the height of each node is its distance to the nearest contour edge (up to the merging of close nodes).',
 ['schedules','inputs'],'every order of events of equal time in the event queue, for the footprints of the corpus in all rotations of their starting vertex',
 'The tests look at one order, the one the heap happens to produce, and check only that arcs do not cross.',
 [B],[('events of equal distance are handled one after the other, skipping those whose vertices are gone',B+': skeletonize, _SLAV.handle_edge_event, handle_split_event'),('nodes close to each other are merged, keeping the arcs of both',B+': mergeNodeClusters, removeGhosts')],
 ['return value of skeletonize()'])
n('N01','Faces tile every footprint','For every valid footprint (simple contour counterclockwise, disjoint holes clockwise), the faces cover the footprint without gaps and overlaps.',[B,G],[('face tracing on the planar graph',G+': faces')])
n('N02','Every face belongs to a contour edge and starts with it','For every valid footprint, each face contains an edge of the contour or of a hole and lists it first, and each contour edge is in exactly one face.',[B,G],[('rotation of faces',G+': faces')])
n('N03','Faces are counterclockwise and simple','For every valid footprint, each face has at least three different vertices in counterclockwise order and does not intersect itself.',[B,G],[('circular embedding',G+': circular_embedding'),('removal of spikes and parallel edges',B+': polygonize')])
n('N04','Each roof face is a plane of the requested pitch','For every valid footprint, the vertices of the face of a contour edge lie in the plane through this edge with the requested pitch, up to the tolerance of node merging.',[B],[('height of nodes',B+': polygonize')])
n('N05','Node height is the distance to the nearest contour edges','For every valid footprint, the height of a skeleton node equals its distance to the contour edges whose faces meet there.',[B],[('event distance',B+': next_event')])
n('N06','Skeleton edges do not cross','For every valid footprint, no two edges of the skeleton cross each other, and the skeleton edges lie within the footprint.',[B],[('removal of ghosts',B+': removeGhosts'),('counting of crossings',B+': checkEdgeCrossing')])
n('N07','The skeleton connects all contour vertices','For every valid footprint, each contour vertex is a sink of exactly one skeleton node, and every node is connected to the contour.',[B],[('sinks of events',B+': handle_edge_event, handle_split_event'),('merging of clusters',B+': mergeCluster')])
n('N08','Roofs are equivariant under translation, rotation and scaling','Moving, rotating or scaling a footprint, or starting its contour at another vertex, moves, rotates or scales its roof and changes nothing else, up to rounding and absolute merge tolerances.',[B,U],[('coordinates relative to the centre',B+': polygonize')])
n('N09','Given unit vectors give the same roof as computed ones','For every valid footprint, passing the correct unit vectors gives the same roof as passing none.',[B,U],[('use of unit vectors',U+': Edge2.__init__')])
n('N10','Every valid footprint gets a roof','polygonize() terminates without exception for every valid footprint.',[B,G],[('loop guards',B+': _LAV.__iter__')])
n('N11','Dormers and apses get their special roofs','For every footprint with a dormer or an apse pattern, the nodes of the pattern are merged into the proper roof of a dormer or an apse, and other contours are not affected by the detection.',[B],[('detection',B+': detectDormers, detectApses')])
n('N12','Geometric primitives are exact up to rounding','Intersections of lines and rays, distances to lines and the circle through three points are correct up to rounding, and parallel lines have no intersection.',[U],[('intersection',U+': _intersect_line2_line2')])
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        jsonschema.validate(d,sch); assert d['statement'].count('. ')<=2,(d['id'],d['statement'].count('. '))
        f.write(json.dumps(d)+'\n')
print(len(P))
