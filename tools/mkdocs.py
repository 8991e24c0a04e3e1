import json
A="foronoi/algorithm.py"
P=[]
def add(id,title,st,over,text,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
DOM="convex polygons and bounding boxes, distinct sites inside or on them, any arrangement: shared rows and columns, cocircular lattices, polygon corners, far offsets, negative and decimal coordinates"
add("C01","Every finished diagram is the nearest-site partition of its polygon",
 "After a diagram has been created for distinct sites in a convex polygon, each site's cell is exactly the part of the polygon whose points are at least as near to that site as to any other: its border corners, its reported area and its reported vertices all agree with that region. The cells tile the polygon, and every vertex listed in the diagram lies where cells meet or at the polygon's own corners or crossings. This holds whatever was built, observed or aborted before, and whatever other callers do meanwhile.",
 ["inputs","histories","schedules","fault_sequences"],
 "every in-domain site set and polygon ("+DOM+"), built in any surrounding history of builds, aborted builds, observers and concurrent callers",
 "The unit tests compare a few hand-picked diagrams in fresh processes; the claim is over all arrangements and over all histories the polygon and the diagram object may have had.",
 [A,"foronoi/graph/polygon.py","foronoi/graph/algebra.py","foronoi/graph/point.py","foronoi/nodes/breakpoint.py","foronoi/events/circle_event.py"],
 [("site and circle event handling","Algorithm.handle_site_event, handle_circle_event"),("clipping of unbounded edges","Polygon.finish_edges, Polygon._finish_edge"),("closing cells along the polygon","Polygon.finish_polygon"),("removal of edges without length","Algorithm.clean_up_zero_length_edges")],
 ["Voronoi.sites, Point.borders(), Point.vertices(), Point.area()","Voronoi.vertices, Voronoi.edges"])
add("C02","The finished diagram is a closed, consistent half-edge structure",
 "In every finished diagram, following next from a cell's first edge returns to it, keeps to that one cell, runs in one orientation, and previous undoes next; every edge has a twin on the other side that starts where it ends, and bordering cells see each other across shared edges. Every vertex knows exactly the edges that start at it, and every listed edge and vertex belongs to the structure the cells are walked through, and the other way round. The accessors for borders, vertices and area terminate.",
 ["inputs","histories","schedules","fault_sequences"],
 "every in-domain input ("+DOM+") with zero-length removal on or off, in any history of builds, aborts, observers and concurrent callers",
 "The tests walk a few cells of a few diagrams; linking errors show only for particular event orders (rows, cocircular sites, corners), after reuse of a polygon, or after an interrupted build.",
 [A,"foronoi/graph/half_edge.py","foronoi/graph/vertex.py","foronoi/graph/point.py","foronoi/graph/polygon.py"],
 [("next/prev/twin linking","HalfEdge.set_next, Algorithm.handle_circle_event, Polygon.finish_polygon"),("vertex adjacency","Vertex.connected_edges"),("first edge of a cell","Point.first_edge")],
 ["Point.borders(), Point.vertices(), HalfEdge.next/prev/twin/incident_point, Vertex.connected_edges"])
add("C03","Removing zero-length edges removes exactly those edges",
 "With removal switched on, a finished diagram has no edge whose two ends coincide and no two vertices in one place, and apart from those edges it equals the diagram built from the same sites with removal switched off: the same vertex positions, the same edges with length between the same pairs of sites, the same border of every cell in the same order. All edges that ended at a removed vertex are still attached at the remaining one, and no cell border, vertex list or edge list still refers to a removed edge or vertex.",
 ["inputs","histories","schedules","fault_sequences"],
 "every in-domain input, in particular four or more cocircular sites (lattices, regular polygons, symmetric sets), with the two builds in any order, on shared or separate polygons, among other activity",
 "One unit test covers one degenerate input; clusters of several coinciding vertices need particular cocircular arrangements and event orders.",
 [A,"foronoi/graph/half_edge.py","foronoi/graph/vertex.py"],
 [("merging the two ends of an edge","Algorithm.clean_up_zero_length_edges, HalfEdge.delete, HalfEdge.update/next relinking")],
 ["Voronoi(remove_zero_length_edges=True/False): edges, vertices, borders()"])
add("C04","The sweep handles every event once, in order, and completes",
 "While a diagram is built, sites are handled exactly once in top-down (then left-to-right) order and numbered in that order, the sweep line sits at the event being handled and never moves back up, and the number of handled circle events never exceeds twice the number of sites less five, so every build finishes. A circle event is handled only where its three sites really are the nearest sites, and at every place where three or more cells meet. Observers are told of a step for every event, once that the sweep is finished when no events are pending, and as the very last message, once, that the diagram is finished; after that the diagram does not change.",
 ["inputs","schedules","histories","fault_sequences"],
 "every in-domain input up to hundreds of sites, every tenant interleaving, after any aborted or earlier build",
 "Tests see final results only; event order, false alarms, stale events and bounded completion depend on the pending-event history of each input.",
 [A,"foronoi/events/event.py","foronoi/events/site_event.py","foronoi/events/circle_event.py","foronoi/observers/message.py"],
 [("event order","Event.__lt__ and the event queue"),("false alarms","CircleEvent.is_valid / remove, Algorithm.check_circles"),("sweep loop and messages","Algorithm.create_diagram")],
 ["messages STEP_FINISHED, SWEEP_FINISHED, VORONOI_FINISHED; Voronoi.event, Voronoi.sweep_line, Point.name"])
add("C05","The diagram is truthful at every step while it grows",
 "After every step an observer sees a correct partial diagram: the leaves of the status tree, read left to right, are the true beach line of the sites handled so far, each arc linked to its neighbours, and every arc on the beach line is among the listed arcs. Inner nodes hold the breakpoints of the arcs on either side, heights and balance are right, and the tree stays balanced (depth logarithmic in its leaves). Every vertex found so far is final and joins three edges of three sites, every edge's current ends are equally near to the two sites it separates, and all reading accessors, including cell walks, finish without error.",
 ["inputs","schedules","histories","fault_sequences"],
 "every step of every in-domain build, in any history and interleaving",
 "No unit test looks at a diagram under construction; the intermediate states depend on the event order of each input.",
 [A,"foronoi/tree/tree.py","foronoi/tree/node.py","foronoi/nodes/leaf_node.py","foronoi/nodes/internal_node.py","foronoi/nodes/breakpoint.py","foronoi/graph/half_edge.py"],
 [("status tree updates","Tree.insert/replace, Algorithm.handle_site_event, Algorithm.update_breakpoints"),("balancing","Tree.balance_and_propagate"),("current ends of edges","HalfEdge.get_origin")],
 ["Observer.update during create_diagram: Voronoi.status_tree, arcs, vertices, edges, sites"])
add("C06","Observers never change the diagram they observe",
 "A diagram built with any set of observers attached - built-in or the caller's own, reading every accessor, rendering, editing the lists they were handed, detaching, or building other diagrams in their callbacks - is the same as the diagram built from the same sites with no observer at all. Diagrams built in callbacks are right as well.",
 ["programs","inputs","schedules"],
 "every set of observers, every action of theirs at every message of the build, every in-domain input",
 "Tests attach at most one passive observer and do not compare with an unobserved build.",
 [A,"foronoi/observers/subject.py","foronoi/observers/tree_observer.py","foronoi/observers/voronoi_observer.py","foronoi/observers/debug_observer.py","foronoi/visualization/visualizer.py","foronoi/visualization/tree_visualizer.py"],
 [("copies handed out","Algorithm.vertices, Algorithm.arcs"),("read-only rendering","Visualizer, TreeVisualizer, HalfEdge.get_origin")],
 ["finished diagrams with and without observers"])
add("C07","Each message reaches exactly the attached observers, once, in order",
 "Every message of a build is delivered exactly once to every observer attached to that diagram at that moment, in the order in which they were attached, and to nobody else; an observer attached or detached from inside a callback, itself included, neither loses nor duplicates messages for the others. Messages about work on a polygon go to the diagram being built, also when several diagrams share the polygon or builds are nested or were aborted. Every observer sees the same sequence of messages that the same build sends when it runs alone.",
 ["programs","histories","schedules","fault_sequences"],
 "every history of attach, detach, build and abort, including from callbacks, over diagrams with own and shared polygons",
 "The tests attach observers once, before a single build; changes of the observer set during delivery and shared polygons are never exercised.",
 ["foronoi/observers/subject.py",A,"foronoi/graph/polygon.py"],
 [("delivery","Subject.notify_observers, attach_observer, detach_observer"),("polygon messages","Algorithm.update (the diagram observes its polygon)")],
 ["Observer.update calls"])
add("C08","An observer's failure reaches the caller unchanged and stops the build",
 "When an observer, or a callback given to a built-in observer, raises during a build, the same exception object reaches the caller of the build, observers later in the order do not get that message, and nobody gets any later message of that build. The next build with the same diagram and the same observers is complete and correct, and observers get all of its messages.",
 ["fault_sequences","programs","schedules"],
 "every exception type (also interrupts and generator or iteration stops) from every observer at every message, followed by any further builds",
 "No test lets an observer fail.",
 ["foronoi/observers/subject.py",A,"foronoi/observers/tree_observer.py","foronoi/observers/debug_observer.py"],
 [("delivery without catching","Subject.notify_observers"),("fresh state","Algorithm.initialize")],
 ["exception at the caller of create_diagram; Observer.update calls"])
add("C09","A build interrupted at any instant leaves nothing behind",
 "If a build ends early for any reason at any instant - an interrupt, memory exhaustion, a failing queue or observer - then building again with the same diagram, with another diagram on the same polygon, or with fresh objects gives exactly the diagram and messages of an undisturbed process. Finished diagrams that were not being rebuilt are untouched.",
 ["crash_points","fault_sequences","histories","schedules"],
 "an exception at any executed line, event-queue operation or message of a build, once or repeatedly, followed by any builds",
 "No test interrupts a build; the crash points are every line of the library.",
 [A,"foronoi/graph/polygon.py","foronoi/graph/point.py","foronoi/observers/subject.py"],
 [("state reset","Algorithm.initialize, Algorithm.__init__"),("polygon state per diagram","Polygon.finish_polygon, Polygon.finish_edges")],
 ["create_diagram after a failed create_diagram"])
add("C10","A diagram depends only on its own sites and polygon",
 "Building a diagram gives the same result whatever the process built before - with the same object, the same polygon or others, the same sites or different ones - and leaves finished diagrams of other objects, the caller's list of sites and the polygon's coordinates unchanged. It changes no process-wide setting (decimal context, numeric and random state, plotting presets, output) and prints nothing of its own. Reading a finished diagram any number of times gives the same answers and changes nothing.",
 ["histories","inputs","schedules","fault_sequences"],
 "every history of builds, rebuilds, aborted builds and reads over shared and separate polygons and diagrams",
 "Each test builds one diagram from fresh objects and looks at it once.",
 [A,"foronoi/graph/polygon.py","foronoi/graph/point.py","foronoi/visualization/visualizer.py"],
 [("state reset","Algorithm.initialize"),("fresh corners per diagram","Polygon.finish_polygon"),("own site objects","Algorithm.initialize: Point per given site")],
 ["finished diagrams, process-wide settings before and after, accessors"])
add("C11","Builds in different threads do not disturb each other",
 "When several threads build diagrams at the same time, each with its own diagram, polygon and observers, every diagram and every observer's sequence of messages is the same as if that thread had run alone, under every interleaving, also when other threads' builds fail or other threads use another decimal precision; once all have ended, the process-wide settings are as they were.",
 ["schedules","fault_sequences","inputs"],
 "every interleaving of 2 to 4 builds at line or bytecode granularity, with aborts in any of them",
 "Tests are single threaded; a shared cache, class attribute or module global shows only under particular switches.",
 [A,"foronoi/observers/subject.py","foronoi/graph","foronoi/nodes","foronoi/tree","foronoi/events"],
 [("no state outside the instances","Algorithm, Subject and Polygon instance attributes")],
 ["finished diagrams and Observer.update calls per thread"])
add("C12","Built-in observers report exactly what they were asked to report",
 "The tree, diagram and debug observers call their callback (or their default output) once for each occasion they were configured for and at no other time, count the messages they have shown, and pass on the truth: the text or graph of the status tree of that moment (which the tree visualizer draws just so), a figure of the asked size and extent containing exactly the asked sites, vertices and edges, the debug message itself. Settings of one observer never leak into another observer, the shared presets or the caller's dictionary. A failing callback or output reaches the caller of the build unchanged.",
 ["configurations","programs","fault_sequences"],
 "every configuration of the three built-in observers, singly and together, over repeated builds and several diagrams, with outputs that fail at any call",
 "The tests construct the observers with one configuration and do not check what they show.",
 ["foronoi/observers/tree_observer.py","foronoi/observers/voronoi_observer.py","foronoi/observers/debug_observer.py","foronoi/visualization/visualizer.py","foronoi/visualization/tree_visualizer.py"],
 [("when to show","TreeObserver.update, VoronoiObserver.update, DebugObserver.update"),("settings","VoronoiObserver.update with Presets"),("rendering","Visualizer.plot_all, TreeVisualizer, Tree/Node.visualize")],
 ["callbacks, standard output, GraphViz rendering, matplotlib figures"])
add("C13","Equal inputs give identical results in every process",
 "The same sequence of builds gives the identical diagrams (vertices, edges, borders, numbering), the identical messages and the identical tree texts whatever memory addresses and hash values objects happen to get, in every interpreter process and for every hash seed.",
 ["configurations","inputs","histories"],
 "every assignment of object addresses and hashes, every interpreter hash seed, every in-domain history; degenerate cocircular inputs in particular",
 "A test run uses one process with one assignment of addresses and cannot tell.",
 [A,"foronoi/graph/vertex.py","foronoi/graph/polygon.py","foronoi/events/event.py"],
 [("sets of vertices and edges are used where order does not matter","Algorithm._vertices, Vertex.connected_edges, Algorithm._arcs"),("event order with equal priority","Event.__lt__")],
 ["finished diagrams and messages under different address assignments"])
# not claimed
add("C14","Coordinates are kept without loss",
 "Coordinates given as numbers are stored as the decimal value of their shortest text form, and read back equal.",
 ["inputs"],"every number a caller may pass","Tests use a few numbers.",
 ["foronoi/graph/coordinate.py"],[("conversion","Coordinate.__init__")],["Coordinate.x, y, xd, yd"])
add("C15","Geometry helpers are exact formulas",
 "Point-in-polygon tests, circle centres and parabola intersections agree with exact geometry for every argument.",
 ["inputs"],"every argument","Tests use a few arguments.",
 ["foronoi/graph/algebra.py","foronoi/graph/polygon.py","foronoi/nodes/breakpoint.py","foronoi/events/circle_event.py"],
 [("formulas","Algebra, Polygon.inside, Breakpoint.get_intersection, CircleEvent.create_circle_event")],["return values"])
add("C16","Diagrams can be clipped by a circle",
 "A diagram created inside the contributed bounding circle is the nearest-site partition of that circle.",
 ["inputs"],"every circle and site set","No test creates one.",
 ["foronoi/contrib/bounding_circle.py"],[("clipping at a circle","BoundingCircle.finish_edges, finish_polygon")],["create_diagram"])
add("C17","Figures show the diagram of the moment they are drawn",
 "Every figure that a diagram observer hands over or the visualizer draws shows, for each element asked for, exactly what the diagram has at that moment: sites, vertices, edges up to where they reach, the sweep line, the beach line with its arcs and their labels, circle and triangle of the event just handled, edge and site labels, pointers from borders to sites with the first edge marked, outgoing arrows, and the polygon. Nothing that was not asked for is drawn, and drawing works at every step of every build.",
 ["inputs","histories"],
 "every figure of every step of every in-domain build, for every combination of options, canvas offset and earlier history (repeated, aborted and concurrent builds)",
 "No test looks at what a figure contains; a step that draws wrongly depends on the event being handled, the set of arcs alive and the options.",
 ["foronoi/visualization/visualizer.py","foronoi/observers/voronoi_observer.py","foronoi/nodes/arc.py"],
 [("plotting","Visualizer.plot_all and Visualizer.plot_*"),("presets","VoronoiObserver.update, Presets"),("arc curves","Arc.get_plot")],
 ["matplotlib artists of each figure handed over"])
add("C18","A build takes n log n steps, whatever the arrangement and the history",
 "Building a diagram takes a number of steps that grows as n log n with the number of sites, as documented, for every arrangement of the sites and every order they are listed in, also for arrangements that make the beach line grow at one end only, on nearly straight lines, in rows, lattices and circles. To that end the height of the beach line's tree stays within a small multiple of the logarithm of the number of its leaves at every step, and a build needs no deeper call stack than such a tree. The cost does not depend on the history: building the same sites again with the same objects, after other builds or aborted ones, takes the same number of steps.",
 ["inputs","histories","fault_sequences"],
 "families of arrangements from tens to over a thousand sites, any listing order, scale and orientation, after any history of builds and aborted builds on the same objects",
 "The unit tests build small diagrams once; a tree that is no longer balanced, a search that visits every node or lists that keep growing give the same diagrams, only slower and slower.",
 [A,"foronoi/tree/tree.py","foronoi/tree/node.py","foronoi/graph/polygon.py"],
 [("balancing","Tree.balance_and_propagate, Tree.balance, rotations"),("searching","Tree.find_leaf_node, Tree.find_value"),("starting afresh","Algorithm.initialize")],
 ["steps executed by create_diagram, Voronoi.status_tree during the build"])
add("C19","The balanced tree keeps order, links, heights and balance in every history",
 "After every sequence of insertions and deletions the search tree holds exactly the inserted items not deleted, in order, equal keys included; children and parents point to each other, the root has no parent, stored heights and balances are right, and no node is out of balance by more than one. Searching for a key or a value finds it exactly when it is there, minimum, maximum, leaves and the printed form agree with that order, and a comparison that fails during a search reaches the caller and changes nothing. A tree used as the beach line uses it, by replacing leaves with subtrees, removing leaves and rebalancing, always reads as the right alternation of leaves and boundaries: looking up a position gives the leaf between its boundaries (the left one on a boundary), every leaf knows its neighbours, and a value is found even when other keys are slightly off by rounding. Keys may move with time as long as their order stays: the time given by the caller is the one used for every key.",
 ["programs","histories","fault_sequences"],
 "every sequence of insert, delete, find, split, remove and look-up operations, ascending, descending, alternating and random, with equal and with moving keys, failing comparisons and noisy keys",
 "There is no unit test of the tree; wrong links, heights or rotations appear only after particular sequences of operations.",
 ["foronoi/tree/tree.py","foronoi/tree/node.py"],
 [("search tree","Tree.insert, delete, find, find_value"),("rebalancing","Tree.balance, rotate_left, rotate_right, balance_and_propagate"),("leaf operations","Node.replace_leaf, successor, predecessor, Tree.find_leaf_node, get_leaves")],
 ["Tree operations and Node links, heights and balance after each operation"])
add("C20","Repeated builds do not accumulate memory or figures",
 "Repeating the same round of builds does not make the library hold more and more: whether builds finish, are aborted or fail at any instant, with observers attached and detached, with diagrams and polygons reused or let go of, once a few rounds are done the number of the library's objects that stay alive, the number of entries held by its modules, diagrams and polygons, and the number of open figures no longer grow from round to round.",
 ["histories","fault_sequences","programs"],
 "every round of in-domain builds, aborts, observer changes and forgotten diagrams, repeated for as long as a process lives",
 "Tests build a few diagrams and end; what stays behind shows only in a process that builds hundreds of diagrams and loses some of the builds half way.",
 ["foronoi/observers/subject.py",A,"foronoi/graph/polygon.py","foronoi/observers/voronoi_observer.py","foronoi/visualization/visualizer.py"],
 [("starting afresh","Algorithm.initialize"),("adopting observers from a parent, lists of children","Subject.inherit_observers_from, _add_child"),("polygon reused","Polygon.finish_edges, finish_polygon"),("figures closed","Visualizer.show, VoronoiObserver.update")],
 ["live objects and container sizes after each round of builds"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,sch); assert len(p["title"])<=80,p["id"]
    print(p["id"],len(p["statement"]), p["statement"].count(". ")+1)
N={"C14":"a pure function of one argument: no schedule, time, I/O, fault or history for a simulator to decide; the values that matter are judged through C01",
"C15":"pure functions of their arguments, without any concurrency, time, I/O or history; deterministic simulation adds nothing to plain input testing, and their effect on diagrams is judged through C01 and C04",
"C16":"the contributed BoundingCircle does not work on the pinned commit (create_diagram raises AttributeError: it has no polygon clipping); there is no behaviour for schedules or faults to vary, only a missing feature"}
notes={
"C01":"Seeded exploration: exact rational reference diagram against the real one in random histories. Sampling, not proof; trusts the reference in fsim/geom.py.",
"C02":"Seeded exploration of inputs, histories and schedules with structural checks on every finished diagram.",
"C03":"Seeded exploration with both settings built in one run and compared edge by edge.",
"C04":"Seeded exploration; every step of every run is observed and judged against the exact diagram.",
"C05":"Seeded exploration; invariants are checked after every simulated step against a reference beach line.",
"C06":"Seeded exploration of observer programs against an unobserved build in an untouched process copy.",
"C07":"Seeded exploration of attach/detach/build/abort programs against a small reference model of who is attached.",
"C08":"Seeded exploration of failing observers: which message, which exception, which position.",
"C09":"Seeded exploration of abort instants at line, queue-operation and message granularity, compared with an untouched process copy.",
"C10":"Seeded exploration of build histories, each build compared with the same build in an untouched process copy.",
"C11":"Seeded exploration of thread interleavings at line and bytecode granularity under a deterministic scheduler.",
"C12":"Seeded exploration of observer configurations with failing output sinks; content compared with the diagram of that moment.",
"C17":"Seeded exploration of figures at every step; artists compared with the diagram of that moment.",
"C18":"Seeded exploration of arrangements and histories; steps are counted exactly, growth is judged against smaller builds of the same run with a factor 2.2 of slack.",
"C19":"Seeded exploration of operation histories against a sorted list and a list of leaves; nodes are stubs with moving keys, the tree is the real one.",
"C20":"Seeded exploration of rounds of builds and faults, repeated; growth is reported only if it goes on over all of about 420 builds.",
"C13":"Seeded exploration of address and hash assignments, plus a second interpreter with another hash seed.",
}
M={"version":1,"setup_cmd":"bin/setup",
"checks":[{"property":p["id"],"quick_cmd":"bin/check %s --tier quick"%p["id"],"thorough_cmd":"bin/check %s --tier thorough"%p["id"],
 "evidence_file":"evidence/%s.json"%p["id"],"technique":"deterministic simulation with fault injection (seeded search)","level":"exploration","level_note":notes[p["id"]]} for p in P if p["id"] in notes],
"not_applicable":[{"property":k,"reason":v} for k,v in N.items()],
"notes":"No hooks in /repo: the simulator's seams (event queue, uuid, object hashes and id(), output sinks, thread switches through sys.monitoring) are put in place from outside. VERIF_REPO points the checks at another tree. See DESIGN.md."}
jsonschema.validate(M,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
