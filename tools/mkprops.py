#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
IG='dynetworkx/classes/intervalgraph.py'; ID='dynetworkx/classes/intervaldigraph.py'
MG='dynetworkx/classes/impulsegraph.py'; MD='dynetworkx/classes/impulsedigraph.py'
SG='dynetworkx/classes/snapshotgraph.py'; SD='dynetworkx/classes/snapshotdigraph.py'
IT='dynetworkx/classes/intervaltree.py'; CT='dynetworkx/algorithms/count_temporal_motif.py'
EDGE4=[IG,ID,MG,MD]
IVL=[IG,ID,IT]; IMP=[MG,MD]; SNP=[SG,SD]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
H=['histories','inputs']
p('C01','edges() lists exactly the edges that were added and not removed',
  "For each of the four edge-list graph classes (IntervalGraph, IntervalDiGraph, ImpulseGraph, ImpulseDiGraph), after any history of adds, updates and removals, edges() without arguments lists every edge that was added and not removed since, each exactly once, with its own end points and times, and nothing else. An undirected graph treats an edge given with its end points reversed as the same edge.",
  H,'every interleaving of add_edge, add_edges_from, add_node(s), remove_edge and remove_node, over any hashable labels and any comparable times, including self-loops, re-additions, zero-length intervals, time 0 and negative times',
  'Tests add a handful of edges in one order and remove at most one; the guarantee is over all histories, and the adjacency and time indexes can drift apart only after mixed sequences.',
  EDGE4+[IT],[('adjacency dictionaries keyed by node pair','add_edge / remove_edge in each class'),('interval tree insert and discard','IntervalTree.insert, discard, add, remove'),('timestamp index','ImpulseGraph.tree SortedDict')],
  ['G.edges()','G.edges(data=True)'])
p('C02','Interval windows return exactly the overlapping edges',
  "For IntervalGraph and IntervalDiGraph, edges(begin, end) returns exactly those edges whose interval starts before end and finishes after begin, or starts exactly at begin, whatever tree of intervals earlier additions and removals built. An omitted bound leaves that side open; begin equal to end asks for the edges present at that instant.",
  H,'every window with begin <= end, with either bound omitted, on, just before and just after every event time, 0 and negative values included, after any history',
  'Tests query a few windows on trees of four edges; boundary equality, zero bounds, deep rotated trees and trees with discarded nodes are not reached.',
  IVL,[('augmented search tree query with pruning by subtree maximum','IntervalTree.query, updateMax, rotations'),('window predicate','Node.inInterval, __overlaps_or_contains')],
  ['G.edges(begin=..., end=...)'])
p('C03','Impulse windows return exactly the edges inside, honouring inclusivity',
  "For ImpulseGraph and ImpulseDiGraph, edges(begin, end, inclusive) returns exactly the edges whose timestamp lies between the bounds, where each bound counts as inside only if its inclusive flag says so (default: begin inside, end outside) and an omitted bound leaves that side open. When begin equals end the answer is the edges at exactly that timestamp.",
  H,'every window with begin <= end, all four inclusivity settings, bounds on/between/outside timestamps, 0 and negative values, numeric or string timestamps, after any history',
  'Tests query a few default windows on four edges; inclusivity combinations, zero and single-instant windows are not exercised.',
  IMP,[('range scan over sorted timestamps','__search_tree'),('timestamp predicate','__in_interval')],
  ['G.edges(begin=..., end=..., inclusive=...)'])
p('C04','Node constraints select exactly the matching edges',
  "For the four edge-list classes, edges(u), edges(v) and edges(u, v) without a window return exactly the edges that match: in an undirected graph an edge touching the node (or joining the two nodes either way round), in a directed graph an edge leaving u and entering v. A list of nodes selects the union over its members, and a string or tuple that names a node is one node.",
  H,'every node label (ints, floats, strings, tuples, frozensets, empty string, 0), every list of them including absent and repeated ones, in one or both positions',
  'Tests use single small-integer nodes; collections, iterable labels and absent nodes are unbounded input classes.',
  EDGE4,[('packing of node arguments','_pack_nodes'),('node-first lookup','__edges_node_first')],['G.edges(u=..., v=...)'])
p('C05','Node and window constraints combine as an intersection',
  "For the four edge-list classes, edges(u, v, begin, end) returns exactly the edges that satisfy both the node constraint and the window constraint as each is answered alone. This holds for single nodes and lists of nodes in either position.",
  H,'all combinations of u, v (single, list, omitted) with begin, end (present or omitted) and inclusivity, after any history',
  'A product of two unbounded input classes of which the tests sample three points.',
  EDGE4+[IT],[('node-first filtering','__edges_node_first'),('window predicates','__overlaps_or_contains / __in_interval')],['G.edges(u, v, begin, end)'])
p('C06','A predictive model never changes the answer of a query',
  "For the four edge-list classes, training a predictive model on any graph with at least one edge (times being ints, floats or dates) terminates and succeeds, and afterwards every query answers exactly as it would without the model, whichever evaluation route the model prefers. Later changes to the graph are reflected as if no model had been trained.",
  ['histories','inputs','configurations'],'every graph with an edge, integer or float times, every compound query, both preferences of the model',
  'No test trains a model; the route taken depends on timing measurements, so the answer must hold for all outcomes of the prediction.',
  EDGE4,[('training','generate_predictive_model, __generate_training_data'),('route choice','compound branch of edges()')],['G.edges(...) before/after generate_predictive_model()'])
p('C07','has_edge agrees with edges',
  "For the four edge-list classes, has_edge(u, v) with or without a window is true exactly when some stored edge between u and v (from u to v in directed graphs) satisfies that window under the same window rules (and the inclusive flags in force) as edges(). For interval graphs, overlapping=False asks for an edge with exactly the given begin and end.",
  H,'all ordered pairs of present and absent nodes, all windows and inclusivity settings, exact and overlapping mode, after any history',
  'Tests check two or three pairs on fixed graphs; exact matching is never tested.',
  EDGE4,[('pair lookup','has_edge'),('predicates','__overlaps_or_contains / __in_interval')],['G.has_edge(...)'])
p('C08','Node presence follows node and edge history',
  "For the four edge-list classes, without a window nodes(), has_node(), len(), number_of_nodes() and membership agree on the set of nodes that were added directly or through an edge and not removed. With a window they agree on exactly the end points of the edges in that window, and node data reported there is the node's own attributes.",
  H,'all histories and all windows (both bounds, one bound, single instants), isolated nodes included',
  'Tests check each accessor on one fixed graph, not their agreement over histories.',
  EDGE4+[IT],[('node dictionary','_node'),('window scan','nodes, has_node, number_of_nodes')],['G.nodes','G.has_node','G.number_of_nodes','len(G)','n in G'])
p('C09','remove_edge removes exactly the requested edges and nothing else',
  "For the four edge-list classes, remove_edge(u, v, ...) removes exactly the edges between u and v (from u to v in directed graphs) that the given window selects - all of them without a window; for interval graphs with overlapping=False only the one with exactly those times - and leaves every other edge, every attribute and every node (including u and v) as it was. Removing what is not there changes nothing.",
  H,'all graphs, pairs (also equal, absent or reversed), windows, inclusivity and exact-match settings',
  'The tests remove one edge from a four-edge graph; the frame condition ranges over everything else in the graph.',
  EDGE4+[IT],[('removal','remove_edge, __remove_iedge'),('tree discard','IntervalTree.discard')],['full public state before/after'])
p('C10','remove_node removes exactly that node presence and nothing else',
  "For the four edge-list classes, remove_node(n) removes n, its attributes and every edge touching n in either direction; with a window it removes only the edges touching n that the window selects, and the node itself only if no edge of it is left. All other edges, nodes (neighbours included) and attributes are unchanged, later re-addition starts afresh, and removing an absent node changes nothing.",
  H,'all graphs, nodes (also with self-loops, isolated or absent), windows and inclusivity settings, followed by any further operations',
  'Tests remove one node and list the rest; stale edges and attributes show only in later window queries or re-additions.',
  EDGE4+[IT],[('removal','remove_node, __remove_iedge')],['full public state before/after'])
p('C11','Node and edge attributes are kept, updated and reported per item',
  "For the four edge-list classes, each node and each edge carries exactly the attributes given for it, later additions of the same item update them key by key, and no other item is affected. edges(data=True / key, default) and nodes(data=True / key, default) report the current values, with the default only where the key is absent, whichever end point or window selects the item.",
  H,'all histories of add_node(s_from), add_edge(s_from) with overlapping keyword sets, per-node dictionaries, None/0/empty values, and re-additions after removal',
  'Tests set attributes once; updates, sharing between items of one call and falsy values are combinations they do not reach.',
  EDGE4,[('attribute dictionaries','add_node, add_nodes_from, add_edge, edges, nodes')],['G.edges(data=...)','G.nodes(data=...)'])
p('C12','interval() is the exact span of the present edges',
  "For the four edge-list classes with at least one edge, interval() returns the earliest begin and the latest end over the edges currently present - not over edges that were removed. Nodes without edges do not affect it.",
  H,'all histories, in particular those that remove the extreme edges, re-add them, or empty and refill the graph',
  'Tests read interval() after additions only.',
  EDGE4+[IT],[('cached bounds and their refresh on removal','IntervalTree.add, remove'),('first and last key','ImpulseGraph.interval')],['G.interval()'])
p('C13','Unique timestamps are the sorted distinct endpoints in the window',
  "For IntervalGraph and IntervalDiGraph, unique_timestamps, unique_begin_timestamps and unique_end_timestamps return, in ascending order and without duplicates, exactly the begins and/or ends of the present edges that lie within the given bounds, each bound counting as inside only if its inclusive flag says so (default: both).",
  H,'all histories; all bounds including 0, bounds on and between timestamps, omitted bounds, all inclusivity settings for given bounds',
  'Tests call each once on one graph with one window.',
  IVL,[('collection and filtering of endpoints','IntervalTree.unique_*timestamps')],['G.unique_timestamps(...)','G.unique_begin_timestamps(...)','G.unique_end_timestamps(...)'])
p('C14','Degrees count exactly the selected incident edges',
  "For the four edge-list classes, degree(n, window) is the number of edges touching n that the window selects; in directed graphs in_degree and out_degree count the edges entering and leaving n and degree is their sum. Without a node each is the mean of that value over the nodes present in the window (over all nodes when there is no window).",
  H,'all graphs, all node labels (strings and tuples included), all windows and inclusivity settings',
  'Tests check one node of a two-edge graph.',
  EDGE4,[('degree as length of an edge query','degree, in_degree, out_degree')],['G.degree','G.in_degree','G.out_degree'])
p('C15','Degree changes follow the true degree over time',
  "For interval graphs, degree(n, delta=True) (also in_degree, out_degree) reports, in time order, a change at exactly every time in the window [begin, end) at which an incident edge of that window begins or ends, and the last entry for a time is the number of incident edges present from that time on. For impulse graphs it reports for every timestamp in the window with incident edges the number of those edges.",
  H,'all graphs, nodes, and windows (omitted, partial, cutting through edges)',
  'Tests use two disjoint edges; simultaneous begins and ends and windows that cut edges are not exercised.',
  EDGE4,[('event sweep','degree(delta=True)')],['G.degree(n, delta=True, ...)'])
p('C16','Static projections contain exactly the selected edges and data',
  "For the four edge-list classes, to_subgraph and to_networkx_graph for a window return a networkx graph of the right kind (directed or not, multi or not) whose nodes are the end points of the edges in the window and whose edges are exactly those edges (collapsed per node pair unless multigraph), carrying edge attributes, times and node attributes exactly when asked for. When several edges collapse, each pair carries values of edges in the window only.",
  H,'all graphs and windows, and all combinations of multigraph, edge_data, times and node_data flags',
  'Tests cover one window and flag at a time for the undirected classes only.',
  EDGE4,[('projection','to_subgraph, to_networkx_graph')],['returned networkx graph'])
p('C17','Snapshots partition the whole time span',
  "For the four edge-list classes, to_snapshots returns the requested number of graphs (or enough graphs of the requested length to cover the span), where graph i contains exactly the edges overlapping [begin + i*length, begin + (i+1)*length) and the last one also includes edges at the very end of the span. Hence every edge appears in at least one snapshot, an impulse in exactly one, and with return_length the length used is also returned.",
  H,'all graphs with a positive time span, numbers >= 2 or lengths shorter than the span, integer and float times, all flags',
  'Tests use one graph with integer times and two settings.',
  EDGE4,[('windowing','to_snapshots')],['returned list of graphs'])
p('C18','to_snapshot_graph has one snapshot per period between changes',
  "Converting an interval graph (edges of positive length) gives snapshots that are consecutive and non-overlapping, with boundaries at exactly the times at which some edge begins or ends, each containing exactly the edges present during it; edges of zero length give a snapshot at their instant. Converting an impulse graph gives one snapshot per timestamp with exactly the edges of that timestamp.",
  H,'all graphs, all patterns of nested, touching, equal and disjoint intervals, all flags',
  'Tests convert one graph of five edges; the sweep depends on the order pattern of all endpoints.',
  EDGE4+[SG],[('conversion','to_snapshot_graph')],['snapshots and their intervals'])
p('C19','from_snapshot_graph gives each edge exactly its runs of presence',
  "IntervalGraph.from_snapshot_graph (and the directed class) returns a graph of that class in which an edge has one interval for every maximal run of consecutive snapshots that contain it, the k-th snapshot standing for [begin + k*period, begin + (k+1)*period), with the attributes from the first snapshot of the run. Nothing else is an edge of the result.",
  ['inputs','configurations'],'all sequences of snapshots, (multi)graphs and digraphs, edges listed either way round, gaps and re-appearances, begin and period values',
  'Tests convert three snapshots.',
  [IG,ID,SG],[('run-length merging','from_snapshot_graph')],['edges of the result'])
p('C20','Conversion from networkx keeps every edge, its times and its data',
  "from_networkx_graph of each edge-list class returns a graph of that class with exactly one edge per edge of the networkx (multi)graph, its times taken from the named attributes (default names or given ones) and all its other attributes kept, and leaves the networkx graph unchanged. Converting a graph to a networkx multigraph with edge data and times and back gives the same edges.",
  ['inputs','configurations'],'all networkx graphs, digraphs and multigraphs whose edges carry the time attributes, custom attribute names, arbitrary labels',
  'Tests convert one small graph with default names.',
  EDGE4,[('conversion','from_networkx_graph')],['edges of the result'])
p('C21','Saving to text and loading gives back the same edges',
  "For the four edge-list classes, save_to_txt followed by load_from_txt of the same class, with the same delimiter and matching types, gives a graph with exactly the same edges, times and attributes (numbers as equal numbers, other text as strings). Directions of directed edges are kept.",
  H,'all graphs with integer or string labels and numeric times, attributes with numbers and plain strings, every delimiter other than =',
  'Tests compare one file to a stored copy; no test saves and loads, nor uses the directed classes.',
  EDGE4,[('writer','save_to_txt'),('reader','load_from_txt')],['edges of the loaded graph'])
p('C22','Text loading follows the stated column order, types and comments',
  "load_from_txt of the four edge-list classes yields exactly the edges its lines describe under the given delimiter, column order (for interval graphs also begin or end with a fixed duration), node type, time type and comment marker; blank lines and comments are ignored. Key=value fields after the required columns become that edge's attributes.",
  ['inputs','configurations'],'all well-formed files and all documented parameter settings',
  'Tests load three files with fixed settings.',
  EDGE4,[('reader','load_from_txt')],['edges of the loaded graph'])
p('C23','Merging on load joins exactly the close equal edges',
  "Loading an interval text file with merge=(True, grace) joins edges of the same node pair with equal attributes whenever the gap between them is smaller than grace + 1, transitively and independently of line order, into one edge spanning them, and leaves all other edges as they are. Every loaded edge spans from the begin of one of its lines to the end of one of its lines.",
  ['inputs','configurations'],'all files with positive-length intervals, all orders of lines, all non-negative grace values, edges that differ only in attributes',
  'No test uses merge.',
  [IG,ID],[('merging','load_from_txt merge branch')],['edges of the loaded graph'])
p('C24','Snapshot graphs hold exactly the inserted snapshots in time order',
  "For SnapshotGraph and SnapshotDiGraph, after any sequence of insert and add_snapshot calls (graphs without nodes included) the container holds exactly the last graph given for each interval or instant, iterates and indexes them in time order, and len() and membership agree with that. A graph built from an edge list has exactly those edges and the class's direction.",
  H,'all orders of insertion of disjoint intervals and instants, re-insertion at the same interval, 0 and negative times, empty graphs',
  'Tests insert two or three snapshots in order.',
  SNP,[('sorted dictionary of snapshots','insert, add_snapshot')],['len(G)','iter(G)','G.get()','G.snapshots'])
p('C25','Snapshot retrieval by window or index returns exactly the matching ones',
  "For snapshot graphs with disjoint snapshots, get(start, end) with start < end returns, in time order, exactly the snapshots whose interval overlaps [start, end) and the instants inside it, an omitted bound being open. get(sbunch) returns the snapshots at exactly those indexes in the given order (none for an empty list, negative ones counted from the end), and giving both a window bound and indexes raises ValueError.",
  H,'all layouts of intervals, instants and gaps; all windows whose bounds are on, inside, between or outside snapshots; 0 bounds',
  'Tests query windows aligned with two or three adjacent snapshots.',
  SNP,[('bisection over snapshot keys','_get')],['G.get(...)'])
p('C26','Windowed snapshot updates change exactly the window',
  "For snapshot graphs with disjoint snapshots, add_nodes_from and add_edges_from with a window apply to exactly the time inside the window: a snapshot cut by a window bound is split there, both parts keep its content, and only the part inside is updated; at every instant outside the window the graph is as before. Updates by index change exactly those snapshots, and no snapshots are lost or merged.",
  H,'all layouts, all windows (bounds inside, on or between snapshots, several per history), node and edge bunches with attributes',
  'Tests update windows aligned with snapshots or one split.',
  SNP,[('split on update','_get(split_overlaps=True)'),('updates','add_nodes_from, add_edges_from')],['G.snapshots before/after'])
p('C27','Snapshot subgraph is the induced subgraph of the selected snapshots',
  "subgraph(nbunch, window or indexes) of a snapshot graph returns a snapshot graph of the same class and graph attributes that holds, for exactly the selected snapshots and under their own intervals, the subgraph induced by the given nodes with all its data. The original is unchanged.",
  H,'all layouts, windows, index lists and node bunches (absent nodes included)',
  'Tests select by default window only.',
  SNP,[('selection','subgraph, _get')],['snapshots of the result'])
p('C28','Per-snapshot measures report one true value per selected snapshot',
  "number_of_nodes, order, size, degree, has_node, is_directed, is_multigraph, to_directed, to_undirected and compute_network_statistic of a snapshot graph return, for exactly the selected snapshots (by window, by index, or all) in order, the value that networkx gives for that snapshot's graph, passing on node bunches, weights and keyword arguments. Queries leave the snapshots unchanged.",
  H,'all layouts, selections, weights and node bunches (a single node, 0, or an empty bunch included)',
  'Tests call each once with default arguments.',
  SNP,[('delegation over the selection','number_of_nodes ... compute_network_statistic')],['returned lists'])
p('C29','Snapshot text files load back to the same weighted snapshots',
  "save_to_txt followed by load_from_txt of the same snapshot class gives, under the same intervals, graphs with the same adjacency matrix (nodes renumbered in order, absent edges absent, weights equal, directions kept), for any delimiter and markers that cannot be part of a number. Comments and blank lines are ignored.",
  H,'all snapshot graphs whose snapshots have at least one node, weighted or not, directed or not',
  'The load tests compare the expected value with itself, so no test looks at a loaded graph.',
  SNP,[('writer and reader','save_to_txt, load_from_txt')],['snapshots of the loaded graph'])
p('C30','Temporal motif counts equal exhaustive enumeration',
  "count_temporal_motif returns as its total and per-instance counts exactly the number of sequences of edges, strictly increasing in time and all within delta of the first, that match the motif with distinct nodes for distinct motif positions, keyed by the node sequence. The graph is not changed.",
  ['inputs'],'all impulse digraphs with labels of any hashable type (0, strings, sets, mixtures), all connected motifs (self-loops, one edge, repeated edges), all delta >= 0, ties in time',
  'The only test is broken and not stable; the sliding-window count depends on all order patterns of timestamps.',
  [CT,MD],[('sliding-window counting','__increment_counts, __decrement_counts'),('subgraph enumeration','__enumerate_subgraphs')],['returned total and dictionary'])
p('C31','Motif participation table agrees with the motif counts',
  "The table returned by count_temporal_motif has a column per distinct motif node in order of first appearance and a row per node taking part in an instance, and each cell is the number of counted instances in which that node plays that part. Every column sums to the total count.",
  ['inputs'],'same as C30','No test looks at the table.',
  [CT],[('participation table','count_temporal_motif')],['returned DataFrame'])
p('C32','Queries do not change the graph and print nothing',
  "No query or conversion of any graph class changes what any later query of the same object returns, and no library call writes to standard output or standard error. Repeating a query gives the same answer.",
  H,'all sequences of queries and conversions with all argument combinations, on any graph',
  'Tests query each graph once or twice and do not compare full state around queries.',
  EDGE4+SNP+[IT,CT],[('read-only paths','all query methods')],['full public state around each query','stdout'])
p('C33','Rejected calls raise the documented error and leave no trace',
  "A call that violates a documented requirement - interval graph begin later than end in add_edge or edges, or in has_edge or remove_edge of a joined pair, impulse window with begin later than end in edges, nodes, has_node, has_edge of a joined pair or a projection, exact match without both times, wrong tuple length in add_edges_from, neither or both ways of slicing, bad delimiter or column order, saving an empty graph, snapshot time together with start or end - raises the documented exception type. A rejected query, removal, slicing, load or single addition leaves the graph exactly as it was.",
  ['inputs','histories'],'all states of the graph and all argument values of each rejected kind, falsy ones (0, empty) included',
  'Tests check a few error paths on fresh graphs with truthy values.',
  EDGE4+SNP,[('argument validation','guards at the top of each method')],['exception type and full public state'])
p('C34','Answers do not depend on insertion order or size',
  "Two edge-list graphs holding the same edges answer every query with the same content however the edges were ordered on insertion and whatever was added and removed in between, also for thousands of edges in ascending, descending or adversarial order. No supported size of graph leads to a recursion error.",
  ['histories','programs'],'all permutations and detours of the same content, up to thousands of edges',
  'Tests build each graph in one order with at most a dozen edges, so the balancing of the interval tree is never stressed.',
  EDGE4+[IT],[('balanced tree','IntervalTree rotations, height, max')],['pairs of graphs compared query by query'])
p('C35','Shifting all times shifts all answers',
  "Adding the same constant to every time of an edge-list graph and to every bound of a query shifts the times in the answer by that constant and changes nothing else; in particular nothing special happens at time 0. Snapshot graphs obey the same law.",
  ['inputs','histories'],'all graphs, queries and shifts, in particular those that move an event or bound onto 0',
  'Tests use positive times; a relation between two executions is not expressible as one example.',
  EDGE4+SNP+[IT],[('time comparisons throughout','all window code')],['pairs of runs'])
p('C36','Renaming nodes renames answers and changes nothing else',
  "Replacing the node labels of a graph consistently by any other distinct hashable labels (0, negative numbers, strings of any length, tuples, frozensets) replaces the labels in every answer and changes nothing else. This holds for the edge-list and the snapshot classes, and for temporal motifs under order-preserving renaming.",
  ['inputs','histories'],'all graphs, queries and injective relabelings',
  'Tests use small positive integers almost everywhere; the relation needs two executions.',
  EDGE4+SNP+[CT],[('label handling throughout','edges, degree, has_node, count_temporal_motif')],['pairs of runs'])
p('C37','Conversions are detached and instances independent',
  "Changing a graph, its nodes or its attributes after converting it (static projection, snapshots, snapshot graph, from networkx, from snapshots) does not change the converted object, and changing the converted object does not change the source. Separately created instances never share state.",
  H,'all conversions in both directions, followed by any changes on either side; several live instances',
  'Tests never change anything after a conversion.',
  EDGE4+SNP,[('copying of data','to_subgraph, to_snapshots, to_snapshot_graph, from_*')],['full public state of the other side'])
p('C38','Undirected answers are symmetric; reversing a digraph swaps roles',
  "In an undirected edge-list graph swapping u and v in any call changes no answer and no effect. In a directed one, reversing every edge and swapping u and v (and in- with out-degree) gives the same answers with reversed edges.",
  ['inputs','histories'],'all histories and queries, self-loops and reciprocal edges included',
  'Relations between two executions, not single examples.',
  EDGE4,[('both-way adjacency','_adj; _pred and _succ')],['pairs of runs'])
p('C39','Graph attributes and name hold exactly what the user put there',
  "For all six graph classes, the attributes given at creation are exactly the content of the attribute dictionary G.graph, G.name reads and writes its entry 'name' (the empty string without one), and str(G) is that name. No update, query, removal or conversion of the graph changes them, and instances do not share them; a snapshot subgraph has the attributes of its source.",
  H,'all attribute names and values at creation, and all histories of updates, queries, conversions and renamings on several instances',
  'Tests look at the name of one fresh graph at most.',
  EDGE4+SNP,[('attribute dictionary','__init__, name, __str__'),('subgraph','SnapshotGraph.subgraph')],['G.graph','G.name','str(G)'])
p('C40','Searching a window and changing an edge take logarithmic effort',
  "For the four edge-list classes, the number of time comparisons spent by a windowed question without node constraint (edges, nodes, number_of_nodes, has_node) grows with the logarithm of the number of edges times one more than the number of edges in the window, and adding an edge or removing one exactly given edge needs a number logarithmic but for the edges with its interval or nodes. Both hold whatever the order and shape of the intervals and whatever was added and removed before.",
  ['histories','programs'],'all insertion orders, interval shapes and removal patterns, up to thousands of edges; windows at any place',
  'Tests have graphs of a dozen edges, on which a linear search or an unbalanced tree cannot be told from a logarithmic one.',
  EDGE4+[IT],[('balanced augmented tree','IntervalTree.insert, discard, rotations, query'),('sorted timestamps','ImpulseGraph.tree, __search_tree')],['comparison operators of the time objects'])
p('C41','A list returned by a query belongs to the caller',
  "A list returned by edges, unique timestamps, degree changes, to_snapshots or a per-snapshot measure keeps its content whatever is done to the graph afterwards. Changing that list (not the attribute dictionaries or snapshots in it) changes neither the graph nor any later answer. This holds with and without node constraints, windows and a trained model.",
  H,'all queries that return lists, all changes to the list, all later updates',
  'Tests discard each answer after one comparison, so a shared or cached list goes unseen.',
  EDGE4+SNP+[IT],[('lists built per query','edges, __edges_interval_first, unique_timestamps, degree, SnapshotGraph.get')],['returned lists before and after updates'])
p('C42','Nothing is lost on the way through another representation and back',
  "An edge-list graph turned into a networkx multigraph with times and data (whole or one window) and back, or sliced by to_snapshots with times and collected again, has exactly the edges, times and edge data it had in that window, each once. An interval graph with changes at consecutive integers turned into a snapshot graph and back with period 1 has for each pair of nodes exactly the union of its intervals.",
  H,'all graphs (self-loops, parallel edges, negative times, odd labels), windows and numbers of slices',
  'Tests check each direction alone on one small example.',
  EDGE4+SNP,[('both directions','to_subgraph, from_networkx_graph, to_snapshots, to_snapshot_graph, from_snapshot_graph')],['G.edges(data=True) before and after'])
p('C43','The graph classes agree with each other on equal content',
  "Edges at instants held as zero-length intervals in the interval classes and as timestamps in the impulse classes give the same answers under default windows: edges, nodes, degree of a node, span, slices, projections and effects of removals. A digraph that holds each pair in one orientation agrees with the undirected class once directions are ignored.",
  H,'all histories driven into all classes at once; all default windows, half open and instants included',
  'Tests exercise the four classes separately with their own examples.',
  EDGE4+[IT],[('four parallel implementations','every method of the four classes')],['answers of several classes compared'])
p('C44','A call that fails leaves the graph as it was',
  "When a call on any of the six graph classes raises (an unhashable node, a time that cannot be compared, a bunch that breaks or holds an unusable item, a comparison or statistic that raises, an index or window that makes no sense), every later answer is as if that call had not been made, and the graph can be used on. Of a failing bunch of nodes or edges at most whole items before the failing one remain, and a failing windowed update of a snapshot graph may cut snapshots at its bounds but changes no content at any time.",
  ['fault_sequences','histories'],'every update and question, failing at any argument, item or comparison, at any point of any history',
  'Tests check at most that an exception is raised, never the state that it leaves.',
  EDGE4+SNP+[IT],[('checks and hashing before the first write','add_edge, remove_edge, remove_node, add_edges_from'),('searches without side effects','IntervalTree, ImpulseGraph.__search_tree'),('checks before the write','SnapshotGraph.insert, add_snapshot')],
  ['every public answer after each failed call'])
p('C45','Deep and pickled copies answer alike and live their own life',
  "A graph of any of the six classes can be deep-copied and pickled at any point of its history; the copy gives the same answers and the same graph attributes. Whatever is then done to either, both behave as their own histories say, and neither changes the other.",
  H,'all histories before and after the copy, all questions on both sides, deepcopy and every pickle protocol, copies of copies',
  'Tests never copy or pickle a graph.',
  EDGE4+SNP+[IT],[('plain picklable state','instance attributes of the graph classes, IntervalTree and its nodes'),('orders that survive copying','ImpulseGraph.tree, SnapshotGraph.snapshots')],['answers of the original and the copy'])
p('C46','What a call is given is neither changed nor kept',
  "No call changes the lists, sets, dictionaries, tuples or networkx graphs it is given. Changing any of these after the call returned has no effect on the graph, except for a networkx graph handed to SnapshotGraph.insert, which becomes the snapshot itself.",
  H,'all updates and questions that take a bunch, a selection, attributes, a dictionary per node or a graph, in all forms, with any change made to the argument afterwards',
  'Tests use each argument once and throw it away.',
  EDGE4+SNP,[('data copied on the way in','__init__, add_node, add_nodes_from, add_edge, add_edges_from, from_networkx_graph, from_snapshot_graph, from_snapshots'),('selections copied before use','SnapshotGraph.get, add_nodes_from, add_edges_from')],['the argument before and after the call','answers after the argument was changed'])
p('C47','What is removed is let go',
  "Once a node, an edge or its attribute values have been removed from a graph, the graph and the library keep no reference to them that keeps them alive, and a graph through which many edges passed holds no more than a fresh graph with the same content. A graph, snapshot or conversion that the caller drops is released, whatever questions were asked of it before.",
  H,'all histories of additions, updates, removals and questions, over any hashable nodes, comparable times and attribute values',
  'Tests never look at what is still referenced; stale entries in an index or a cache answer correctly until memory runs out.',
  EDGE4+SNP+[IT],[('entries deleted in every index','remove_edge, remove_node, IntervalTree.discard and remove'),('no module-level caches','the graph classes and count_temporal_motif')],['weak references to nodes, times and values','objects reachable from the graph'])
p('C48','Questions asked at the same time do not disturb each other',
  "Any number of questions, conversions, motif counts and saves on a graph that nobody changes give the same answers when they run inside one another or in parallel threads as when they are asked one by one. This holds on one graph and on several, and for a question asked from within a user-supplied statistic or while an answer is being gone through.",
  ['schedules','inputs'],'all sets of questions and all interleavings of them at the granularity of source lines, and free-running threads',
  'Tests ask one question after the other; state left in an instance, a module or a default argument during a question shows only when two overlap.',
  EDGE4+SNP+[IT,CT],[('questions keep their working state in local variables','edges, degree, conversions, IntervalTree queries'),('per-call tables','count_temporal_motif')],['answers of overlapping questions'])
p('C49','A subclass is served like the class itself',
  "An instance of a subclass of any of the six classes (with or without its own constructor, at any depth) answers every question, conversion and save as an instance of the class does. Every class method that makes a graph (from_networkx_graph, from_snapshot_graph, load_from_txt) and SnapshotGraph.subgraph, called on a subclass or its instance, gives an instance of that subclass, made by its own constructor and holding what the class's own result holds.",
  ['inputs'],'all subclasses, all histories of updates and questions',
  'Tests only use the classes themselves; a class named in place of cls, a helper reached through the class name or a type test shows only on a subclass.',
  EDGE4+SNP,[('cls() in the constructors of class methods','from_networkx_graph, load_from_txt, from_snapshot_graph'),('self.__class__ in subgraph','SnapshotGraph.subgraph')],['type and content of results','answers of the subclass instance'])
p('C50',"Attribute dictionaries in answers are the item's own",
  "The attribute dictionary that edges(data=True) or nodes(data=True) of the four edge classes reports for an item, by whichever parameters it was found, is the one the graph keeps: what the caller changes in it is seen by every later question and conversion, and what later add calls set appears in it. Changing one item's dictionary never affects another item, and once the item is removed (also when an equal one is added again) it affects nothing.",
  ['inputs','histories'],'all histories of updates, questions and changes to reported dictionaries',
  'Tests compare answers once and drop them; a copy on one access path, a stale or shared dictionary shows only when a reported dictionary is changed and the item asked for by another path.',
  EDGE4,[('one attribute dictionary per edge, shared by both adjacency entries','_adj/_pred/_succ, add_edge'),('one attribute dictionary per node','_node')],['dictionaries reported by edges and nodes','answers after a change'])
p('C51','Equal labels and times are the same, whatever their type',
  "Node labels and times given as equal values of other types (1, 1.0, True, Fraction(1), a string or tuple subclass, NumPy numbers as times) denote the same node, edge or time, in updates and in questions, for all six classes. A history and its questions give equal answers however each occurrence of a label or time is typed.",
  ['inputs'],'all histories of updates and questions, all equal re-typings of their labels and times',
  'Tests use one type for each value; an identity test, a type test, or a key made from repr or str shows only when an equal value of another type is used.',
  EDGE4+SNP+[IT],[('nodes and edges are found by hash and equality','_node, _adj'),('times are compared by value','IntervalTree, __in_interval, SortedDict keys')],['answers of twin histories'])
p('C52','Arguments mean the same by position and by name',
  "Every public method of the six graph classes, their class methods and count_temporal_motif take their documented arguments by position in the documented order and by their documented names, and any split of the two. All these forms of a call give the same answer and leave the graph in the same state, and an argument left out means its documented default.",
  ['inputs'],'all documented calls of all classes, all sets of optional arguments, all splits between position and name',
  'Tests call each method in one form, mostly by name; a reordered, renamed or keyword-only parameter or another default shows only in the other forms.',
  EDGE4+SNP+[CT],[('signatures','every public method'),('arguments handed on between methods','to_networkx_graph, get, _get')],['answers of twin calls','state after twin updates'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
