# Executed by props.py.
HOOKS = dict(guard="portgraph_mc (rustc cfg)", enable="mc/.cargo/config.toml passes --cfg portgraph_mc to rustc, so /repo is built with src/mc_sync.rs and regions use its instrumented lock; without the cfg nothing changes",
             source_commits=["3206e04", "d7b01c9"])
NOTES = ("Harness crate mc/ (path dependency on /repo, own workspace). Every check explores real portgraph code exhaustively within "
         "stated bounds against an independent reference model and writes evidence/<id>.json. 'mc replay <file>' re-executes a violation.")
TODO = "not built yet"
BASE_NOTE = ("Exhaustive within the stated bounds (node/port/link counts, depth), on the real compiled code with overflow and debug checks on; "
             "trusts the reference model in mc/src, state deduplication by 128-bit hash of the serialized state, and re-executes full histories to validate determinism. ")

prop("C01", "A port graph is the abstract graph its mutation history built",
     "After any sequence of adding and removing nodes, linking and unlinking ports, changing port counts, swapping, compacting, clearing, reserving and shrinking, every query of the graph (nodes, ports, directions, offsets, links, neighbours, connections, counts, and the lengths and order of all the iterators) answers exactly as the abstract graph obtained by applying the same operations to plain sets and ordered port lists. Links are symmetric one-to-one pairs of an output and an input port, and each query lists ports in offset order and every link exactly once per direction asked.",
     ["histories", "programs"], "all operation histories, including ones that recycle node slots and port blocks and leave over-allocated or empty port blocks behind",
     "Unit tests and proptests build a handful of graphs, mostly without removals, recycling or resizing mixed with links; free-list and slab corruption only shows after particular multi-step histories.",
     ["src/portgraph.rs", "src/portgraph/iter.rs", "src/view.rs"],
     [("slab allocation and free lists", "src/portgraph.rs: alloc_node, free_node, alloc_ports, free_ports"), ("resizing", "src/portgraph.rs: set_num_ports, resize_ports_inplace"), ("iterators", "src/portgraph/iter.rs")],
     BASE_NOTE + "Up to 3-4 nodes, 2-3 ports each, depth 6-20.", technique="bfs")

prop("C02", "Resize, compaction and swap report exactly what moved",
     "Changing a node's port counts calls back once for every removed port (with the port it was linked to, if that link still existed) and at least once for every port whose index changed, naming the right old and new index; applying the reports one after another to an external table never overwrites a live entry and ends in exact agreement with the graph. Compacting nodes or ports reports the move of every item whose index changed, and swapping two node indices exchanges exactly these two nodes; surviving ports keep their offset, links and node.",
     ["histories"], "all histories followed by every resize, compaction or swap",
     "Tests check a few hand-picked resizes; the callback order matters only for particular combinations of growth in one direction, shrinkage in the other and available slab room.",
     ["src/portgraph.rs"], [("in-place resize", "src/portgraph.rs: resize_ports_inplace"), ("reallocating resize", "src/portgraph.rs: set_num_ports"), ("compaction", "src/portgraph.rs: compact_nodes, compact_ports")],
     BASE_NOTE + "Every resize between (i,o) with i,o<=3 on linked two-node graphs, and up to 9 ports on one node.", technique="bfs")

prop("C03", "Refused requests say precisely why and change nothing",
     "A link request between ports that do not exist, have the same direction or are already linked, or that names an offset or subport the node does not have, fails with the error naming the offending port, node and offset, and leaves the whole graph - including the indices it will hand out next - exactly as it was. Removing, unlinking or resizing things that do not exist does nothing and calls no callback.",
     ["inputs", "histories"], "every illegal or void request after every history, on plain and multi port graphs",
     "Tests try single illegal requests on fresh graphs; partial effects before the failure is detected (an allocated hidden node, a consumed free slot) need particular states to show.",
     ["src/portgraph.rs", "src/multiportgraph.rs", "src/view.rs"], [("linking", "src/portgraph.rs: link_ports; src/multiportgraph.rs: link_ports, link_subports, get_free_multiport"), ("linking by offset", "src/view.rs: link_nodes, link_offsets")],
     BASE_NOTE, technique="bfs")

prop("C04", "Indices stay stable, are recycled, and compaction leaves no gaps",
     "Operations other than compaction, swapping and resizing never change the index of a node or port that still exists, and a new node never receives an index in use. Freed node indices are reused before the index space grows, adding a node does not grow the port index space while a freed block of exactly as many ports is left, after compaction the indices are exactly 0..count in the previous relative order, and a cleared graph behaves like a new one.",
     ["histories"], "all histories of additions, removals, resizes, swaps and compactions",
     "Index-recycling bugs need a removal pattern that leaves a particular free list behind; tests check single cases.",
     ["src/portgraph.rs"], [("free lists", "src/portgraph.rs: node_free, port_free"), ("compaction", "src/portgraph.rs: compact_nodes, compact_ports")],
     BASE_NOTE, technique="bfs")

prop("C05", "Port count limits are enforced exactly",
     "Adding or resizing a node succeeds for every pair of port counts that are each at most the largest offset of the offset type and together at most 65535 (65535 inputs may be refused), and every such port is then addressable by its offset, linkable, and survives further resizing. Any larger request panics without changing the graph, asking for a port at an offset the node does not have - however large - yields nothing, and one port of a multigraph accepts links up to the same limit.",
     ["inputs", "configurations"], "all boundary port counts for 8-, 16- and 32-bit port offsets, for adding and for resizing from any of them to any other",
     "Tests only use small 16-bit graphs; wrap-around happens at the edges of the packed representations.",
     ["src/portgraph.rs", "src/index.rs"], [("limits", "src/portgraph.rs: add_node, set_num_ports"), ("packed node record", "src/portgraph.rs: NodeMeta"), ("offsets", "src/index.rs: PortOffset")],
     "Every sequence of add and one or two resizes over boundary sizes (0, 1, around powers of two and around each limit) for three offset widths, on plain and multi graphs; sizes strictly between the listed ones are not tried.", technique="enum")

prop("C06", "Index types encode, compare and round-trip every representable value",
     "For every width, a node index, port index or port offset can be made from a number exactly when it does not exceed the advertised maximum (otherwise construction panics, conversion and deserialization return an error), and then yields back the same number and direction, orders by direction and number, and round-trips through JSON and MessagePack. The optional forms need no extra space, never confuse a value with the absence of one, and their take/replace/modify operations behave like those of an ordinary option.",
     ["inputs"], "all values of the 8- and 16-bit types, all values near powers of two for wider ones",
     "Tests check three values; packing errors sit at the sign bit and at the reserved all-ones pattern.",
     ["src/index.rs"], [("bit field", "src/index.rs: BitField"), ("optional indices", "src/index.rs: MaybeNodeIndex, MaybePortIndex")],
     "Complete for 8 and 16 bits, powers of two +-3 for 32, 64 bits and usize.", technique="enum")

prop("C07", "A multi port graph is the abstract multigraph its history built",
     "After any sequence of mutations, including several links on one port and link removal by port or by subport, every query (nodes, ports, links, subports, neighbours, connections, counts) answers as an abstract graph in which a port carries a set of links, each on its own subport. Subports in use keep their identity until unlinked, hidden helper nodes never show up in any answer, and contracting the exposed flat graph onto the main nodes gives back the same multigraph.",
     ["histories", "programs"], "all histories of adds, links, unlinks, subport relinks, removals, resizes, swaps, compactions, conversions",
     "Tests build three-link examples; bookkeeping of helper nodes and flags goes wrong only after mixtures of unlinking, resizing and reuse.",
     ["src/multiportgraph.rs", "src/multiportgraph/iter.rs"], [("copy nodes", "src/multiportgraph.rs: get_free_multiport, remove_copy_node, copy_node_main_port"), ("iterators", "src/multiportgraph/iter.rs")],
     BASE_NOTE, technique="bfs")

prop("C08", "Multi port graphs resize, compact and swap faithfully",
     "Resizing, compacting and swapping a multi port graph keep all links of surviving ports, remove exactly those of removed ports, and report port and node moves in terms of the ports and nodes the user knows, so that a table following the reports agrees with the graph. Nothing about the hidden helper nodes is reported as a link partner and they follow every move consistently.",
     ["histories"], "all histories followed by every resize, compaction and swap",
     "One regression test resizes one multiport node; flags are moved port by port and break for particular orders.",
     ["src/multiportgraph.rs"], [("resize wrapper", "src/multiportgraph.rs: set_num_ports"), ("flag moves", "src/multiportgraph.rs: compact_nodes, compact_ports, swap_nodes")],
     BASE_NOTE, technique="bfs")

prop("C10", "The hierarchy is an ordered forest with a faithful history",
     "After any sequence of attaching (first, last, before or after a sibling), detaching, removing, swapping, re-indexing and clearing, parents, child order, siblings, counts, roots and descendant listings are those of the ordered forest obtained by the same edits on nested lists. Attaching an attached node, a root's ancestor relation that would close a cycle (a node under itself or under its descendant), or a position relative to a root fails with the matching error and changes nothing.",
     ["histories"], "all histories over up to five nodes",
     "Tests use fixed small trees; sibling-list splices depend on first/last/only-child position of both ends.",
     ["src/hierarchy.rs"], [("sibling lists", "src/hierarchy.rs: push_child, insert_before, insert_after, detach"), ("cycle check", "src/hierarchy.rs: cycle_check"), ("moves", "src/hierarchy.rs: rekey, swap_nodes")],
     BASE_NOTE, technique="bfs")

prop("C11", "The hierarchy stays in step with graph removal, swapping and compaction",
     "Applying a graph's node removals, index swaps and compaction reports to a hierarchy over the same nodes leaves every surviving node with the same parent and the same order of siblings, up to the reported renaming, and never refers to an index that is no longer a node.",
     ["histories"], "all interleavings of graph and hierarchy edits up to a depth",
     "No test combines compaction callbacks with non-trivial hierarchies.",
     ["src/hierarchy.rs", "src/portgraph.rs"], [("re-indexing", "src/hierarchy.rs: rekey, swap_nodes, remove"), ("callbacks", "src/portgraph.rs: compact_nodes")],
     BASE_NOTE, technique="bfs")

prop("C12", "Every secondary map is a total map with a default",
     "After any sequence of writes, takes, removals, swaps, re-keys and capacity requests on any of the provided secondary map kinds, reading a key gives the last value written to it or the map's default, iteration yields exactly the keys holding a non-default value (dense value maps may also list defaults) with their values, and capacity requests are honoured without changing contents.",
     ["histories"], "all operation sequences up to a depth over a few keys, for each map kind and non-trivial defaults",
     "Tests write a few keys in order; growth, default handling and self-moves interact.",
     ["src/secondary.rs", "src/unmanaged.rs"], [("bit vector and hash set maps", "src/secondary.rs"), ("dense map", "src/unmanaged.rs")],
     BASE_NOTE, technique="bfs")

prop("C13", "Attached weights follow the graph through every change",
     "When node and port weights are updated from the reports of resizing, compaction, removal and swapping, every surviving node and port keeps its weight, removed ones read as the default, and new ones read as the default.",
     ["histories"], "all histories with distinct weights on every node and port",
     "Tests do not combine weights with callbacks.",
     ["src/weights.rs", "src/unmanaged.rs", "src/portgraph.rs"], [("weight maps", "src/weights.rs"), ("rekey", "src/unmanaged.rs: rekey, swap")],
     BASE_NOTE, technique="bfs")

prop("C14", "Hierarchical regions show exactly the nodes below their root",
     "The region of a node contains exactly that node and all its descendants in the hierarchy; the flat region contains exactly its direct children, and the node itself if so asked. Every query on such a region answers as the graph restricted to these nodes: their ports, and only the links with both ends inside.",
     ["configurations", "inputs"], "all hierarchies and linked graphs up to a size, every root",
     "Tests check two fixed examples.",
     ["src/view/region.rs", "src/view/flat_region.rs"], [("membership", "src/view/region.rs: contains_node; src/view/flat_region.rs: contains_node")],
     BASE_NOTE, technique="enum")

prop("C15", "Filtered views are the induced restriction of the graph",
     "A node-filtered, link-filtered or combined view answers every query as the graph obtained by deleting the rejected nodes, links touching them and rejected links, and stacking filters composes.",
     ["configurations", "inputs"], "all graphs up to a size with all node and link filters",
     "Tests use one filter on one graph.",
     ["src/view/filter.rs"], [("filters", "src/view/filter.rs: FilteredGraph")],
     BASE_NOTE, technique="enum")

prop("C16", "Subgraph views contain exactly what their boundary cuts out",
     "A subgraph given by boundary edges contains exactly the nodes reachable from inside the boundary without crossing it, by nodes exactly those nodes, shows their ports and the links among them through every query, and reports as boundary exactly the links between inside and outside.",
     ["configurations", "inputs"], "all graphs up to a size, all boundaries and node subsets",
     "Tests use two fixed graphs.",
     ["src/view/subgraph.rs", "src/boundary.rs"], [("traversal", "src/boundary.rs: internal_nodes"), ("view", "src/view/subgraph.rs")],
     BASE_NOTE, technique="enum")

prop("C17", "Region answers do not depend on query order or on concurrent queries",
     "Queries on one region may come in any order and from several threads at once; every answer is the one a fresh region would give.",
     ["schedules", "histories"], "all query sequences up to a length and all thread interleavings of a few queries",
     "The answers are memoised behind a lock; tests query sequentially, once.",
     ["src/view/region.rs"], [("memo table", "src/view/region.rs: cached membership")],
     BASE_NOTE + "Interleavings of lock operations of two or three threads under a controlled scheduler (sequentially consistent; everything between two lock operations is one step), all of them or up to a preemption bound as listed in the evidence.", technique="stateless model checking: real threads under a controlled scheduler, every interleaving of lock steps up to a preemption bound, plus every sequential query order")

prop("C18", "Inserting and copying graphs preserves structure",
     "Inserting a graph or any view into a graph adds one new node per inserted node with the same port counts and exactly the same links among them, returns the one-to-one correspondence, and leaves the existing nodes, ports and links untouched; links that a plain graph cannot hold are refused. Copying a subgraph into its graph does the same, and in a multigraph also gives the copy the subgraph's boundary links at the same outside ports; in a plain graph a subgraph with boundary links is refused, naming a boundary link and changing nothing.",
     ["configurations", "inputs"], "all pairs of small graphs and views",
     "Two tests insert fixed graphs.",
     ["src/view.rs", "src/view/subgraph.rs"], [("insertion", "src/view.rs: insert_graph"), ("copying", "src/view/subgraph.rs: copy_in_parent")],
     BASE_NOTE, technique="enum")

prop("C19", "Boundaries keep their declared order and order ports by reachability inside",
     "A boundary lists its input and output ports in the declared order and finds each port at its position. For every boundary that separates an acyclic inside from the rest (no boundary port carries a link that stays inside), its port ordering - computed in the whole graph or in the subgraph - relates an input to an output exactly when a path inside the subgraph leads from one to the other, and comparing two orderings reports exactly the pairs missing.",
     ["configurations", "inputs"], "all subgraphs and boundaries up to a size",
     "Tests use one line graph.",
     ["src/boundary.rs"], [("ordering", "src/boundary.rs: port_ordering")],
     BASE_NOTE, technique="enum")

prop("C20", "Topological traversal emits each reachable node after its dependencies",
     "The traversal from given sources, forwards or backwards and with node and port filters, yields exactly the admitted sources and, repeatedly, every admitted node that has admitted incoming links all of which come from yielded nodes; each once, and every node that is not a source after all its admitted predecessors. Links with a rejected port or node at either end do not count. Sources may be repeated or added while iterating, the size hint is always valid, and without filters ports are reported as left over exactly when a node with ports was not reached.",
     ["configurations", "inputs"], "all small graphs, directions, source sets and filters",
     "Tests use fixed examples.",
     ["src/algorithms/toposort.rs"], [("readiness", "src/algorithms/toposort.rs: becomes_ready")],
     BASE_NOTE, technique="enum")

prop("C21", "Post-order traversal emits each reachable node after its successors",
     "The post-order traversal from given sources yields exactly the nodes reachable through admitted nodes and ports in the direction asked, once each, each after everything first reached through it, following the order of the sources and of the ports; its size hint is always valid.",
     ["configurations", "inputs"], "all small graphs, directions, sources, filters",
     "Tests use fixed examples.",
     ["src/algorithms/post_order.rs"], [("traversal", "src/algorithms/post_order.rs")],
     BASE_NOTE, technique="enum")

prop("C22", "The dominator tree is the true immediate-dominator relation",
     "For every graph, accepted entry node, direction and filter, the computed tree gives exactly the nodes reachable from the entry (other than the entry) an immediate dominator, which is the unique closest other node that lies on all admitted paths from the entry to it, regardless of links from unreachable nodes.",
     ["configurations", "inputs"], "all directed graphs up to a size, every entry, both directions",
     "Tests use three graphs.",
     ["src/algorithms/dominators.rs"], [("iteration", "src/algorithms/dominators.rs")],
     BASE_NOTE, technique="enum")

prop("C23", "Lowest common ancestors are correct for all pairs",
     "For every hierarchy, and for every graph or view whose nodes are asked about (also a view that leaves out some of their ancestors), the ancestor test, the root of a node, and the lowest common ancestor of any two nodes (nothing if they are in different trees) agree with the parent relation.",
     ["configurations", "inputs"], "all ordered forests up to a size and all pairs",
     "Tests use one tree.",
     ["src/algorithms/lca.rs"], [("euler tour", "src/algorithms/lca.rs")],
     BASE_NOTE, technique="enum")

prop("C24", "The topological convexity checker decides convexity exactly",
     "For every acyclic graph, multigraph or view, every node set and every choice of input and output ports on these nodes, the topological checker says convex exactly when no outside node lies on a path between two nodes of the set and no link leads from a chosen output port to a chosen input port. The empty set is convex. A subgraph asked whether it is convex, alone or with a checker of its graph, gives this answer for its own nodes and boundary.",
     ["configurations", "inputs"], "all small acyclic graphs and subgraphs",
     "Tests use a few graphs; a proptest compares two checkers.",
     ["src/algorithms/convex/topo_convex_checker.rs"], [("search", "src/algorithms/convex/topo_convex_checker.rs: is_convex")],
     BASE_NOTE, technique="enum")

prop("C25", "The line convexity checker and its intervals decide convexity exactly",
     "The line-based checker partitions the links of every acyclic graph into paths with strictly increasing positions, gives the exact convexity answer (as for the topological checker) for every node set and choice of ports, and its interval representation of a node set exists exactly when the set is contiguous on every line, contains exactly the set's nodes, decides convexity, and - extended by one node - equals that of the larger set or is refused and left unchanged.",
     ["configurations", "inputs"], "all small acyclic graphs, node sets and extension orders",
     "Tests use a few graphs.",
     ["src/algorithms/convex/line_convex_checker.rs"], [("lines", "src/algorithms/convex/line_convex_checker.rs")],
     BASE_NOTE, technique="enum")

prop("C26", "The dynamic convexity checker follows graph edits",
     "Start from any acyclic graph or multigraph and edit it in any way through DynamicTopoConvexChecker: nodes added, removed, swapped or renumbered, ports resized, links added with the ports in either order or removed, graphs inserted, everything cleared. The checker then answers every graph query like a plain graph edited the same way; it refuses (by a panic that changes nothing) exactly the links that would close a cycle; and is_convex answers for every set of nodes and boundary ports by the definition of convexity in the current graph: false if a node is missing, if a node outside lies on a path between chosen nodes, or if a link leads from a chosen output port to a chosen input port.",
     ["histories"], "all edit histories up to a depth",
     "Tests use a few edits.",
     ["src/algorithms/dynamic.rs"], [("order maintenance", "src/algorithms/dynamic.rs")],
     BASE_NOTE, technique="enum")

prop("C27", "The petgraph adapters describe the same graph",
     "Seen through the petgraph traits, every PortGraph and MultiPortGraph and every region, flat region, filtered graph and subgraph of one is the directed graph that its own queries show, also when node indices have holes: node and edge counts, distinct indices below node_bound that map back, node identifiers and references, neighbors in each direction with multiplicity, edges(n) = the outgoing edges, edges_directed, edge_references = every link exactly once, each from the output to the input endpoint and with an exact remaining length, adjacency matrix, visit maps (visit is true exactly the first time). So petgraph's traversals and algorithms (Dfs, Bfs, Topo, toposort, cycle test, SCCs, dijkstra, astar, reversed graphs, dominators, spanning tree) give the right answer on them.",
     ["configurations", "histories"], "all small graphs with holes, each graph kind and view",
     "Tests run one algorithm on one graph.",
     ["src/view/petgraph.rs"], [("trait impls", "src/view/petgraph.rs")],
     BASE_NOTE, technique="enum")

prop("C28", "Serialization round trips preserve present and future behaviour",
     "Serializing any reachable graph, multigraph, hierarchy, weight map, dense map or index and reading it back, in JSON or (compact or named) MessagePack, gives an equal value that answers every query the same, serializes to the same bytes again, and reacts to any further operations like the original, handing out the same indices. Reading a number that does not fit an index type is refused.",
     ["histories"], "all reachable states up to a depth, then all one-step continuations",
     "Tests round-trip a few graphs and compare only equality.",
     ["src/portgraph.rs", "src/multiportgraph.rs", "src/hierarchy.rs", "src/unmanaged.rs"], [("derived and manual serde impls", "src/index.rs, src/portgraph.rs")],
     BASE_NOTE, technique="bfs")

prop("C29", "Rendered graphs show exactly the nodes, ports, links and hierarchy",
     "The dot and mermaid output of any graph, multigraph or view is well-formed and declares each of its nodes, and no other, once with the requested label and attributes (and, in dot, its ports by offset with their styles), nests or lists nodes as the hierarchy does, and draws exactly one edge per link between the right ports or nodes with the right style and label. Hidden nodes have no edges, and in mermaid an edge lies only inside blocks that enclose both of its ends.",
     ["configurations"], "all small graphs and hierarchies, with styles and labels",
     "Snapshot tests fix three graphs.",
     ["src/render.rs", "src/render/dot.rs", "src/render/mermaid.rs"], [("dot", "src/render/dot.rs"), ("mermaid", "src/render/mermaid.rs")],
     BASE_NOTE, technique="enum")

prop("C30", "Access through references and wrappers is transparent",
     "Using a graph or a view through a shared or mutable reference, or a reference to a reference, gives the same answers to every query and the same results, effects and callbacks for every mutation as using it directly.",
     ["inputs", "programs"], "every query and mutation, every wrapper, all small graphs",
     "No test calls the forwarding impls method by method.",
     ["src/view/refs.rs", "src/view.rs"], [("forwarding", "src/view/refs.rs")],
     BASE_NOTE, technique="bfs")
