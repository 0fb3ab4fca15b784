import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
TG="src/typed_graph.rs";TX="src/typed_graph/transaction.rs";CA="src/cate_arena.rs";MC="ttgraph_macros/src/cate_arena.rs";TN="ttgraph_macros/src/typed_node.rs";NE="ttgraph_macros/src/node_enum.rs";BD="ttgraph_macros/src/bidirectional.rs";LC="ttgraph_macros/src/link_check.rs";GR="ttgraph_macros/src/group.rs";SE="src/typed_graph/serialize.rs";ID="src/id_distributer.rs";CK="src/typed_graph/check.rs"
p("C01","Node indices are never empty, shared or handed out twice",
 "Every index a context hands out - to any transaction, thread, copy of the context, or relabelling of a graph into it - is non-empty and different from every other index that context ever handed out, including those of abandoned transactions and removed nodes. A context rebuilt while restoring a saved graph never hands out an index that occurs in the restored graph, either as a node or as the target of a link.",
 ["schedules","histories","crash_points"],"all interleavings of allocating threads at instruction granularity; all histories of insert/alloc/abandon/remove/relabel/save/restore",
 "The tests allocate from one thread and one transaction at a time; a lost update on the counter needs a specific interleaving and a stale counter after restore needs a specific saved graph.",
 [ID,TG,MC,SE],[("atomic counter shared by all clones",ID+" alloc"),("counter rebuilt from the image",SE+" deserialize_graph"),("relabelling draws from the new context",TG+" switch_context")],
 ["return values of alloc / alloc_untyped / insert","indices in a graph after relabelling or restore"],[("cnt","last index handed out",ID)])
p("C02","A commit has exactly the documented effect on the then-current graph",
 "However transactions interleave, committing one changes the graph exactly as if its recorded operations were applied at that moment to the then-current graph in the documented order: redirect links of existing nodes, insert, mutate in recorded order, update in recorded order, redirect all links, remove, complete bidirectional links. Everything the transaction does not name keeps its index, type, data and links, and a transaction that breaks no rule is never refused.",
 ["schedules","histories","programs"],"all interleavings of concurrently built transactions over all node types and link kinds, all operation sequences inside a transaction",
 "The tests build one transaction at a time on graphs of a few nodes, so orders of operations across and inside transactions are hardly sampled.",
 [TG,TX,CA,MC,TN,NE],[("commit phases",TG+" do_commit"),("back links kept in step with links",TG+" add_back_links, remove_back_links, modify_node, update_node, redirect_links"),("operations on nodes not yet committed act inside the transaction",TX+" mutate, update, remove")],
 ["state of the graph after each commit, against a reference model"],[("back_links","who links to an index, by which field",TG)])
p("C03","Nothing outside a successful commit of a transaction touches a graph",
 "Building, abandoning, dropping or losing a transaction at any point never changes any graph, and a commit changes no other graph, no other open transaction and no other context. A change recorded against a node already in a graph runs exactly once, during the commit of its transaction and on the node as it is then, and never runs if the transaction is abandoned or refused up front.",
 ["schedules","crash_points","histories","fault_sequences"],"all points at which a client may abandon, crash or be refused, for all interleavings with other clients' transactions and graphs",
 "No test abandons a transaction that holds pending changes and then looks at the graph, nor runs two graphs or two transactions side by side.",
 [TX,TG],[("a transaction only records, in its own storage",TX+" Transaction"),("deferred closures consumed by the commit loop",TG+" do_commit"),("dropping discards",TX+" give_up")],
 ["graphs and pending transactions before/after each step","execution count and observed argument of every recorded change"])
p("C04","Malformed transactions are refused and leave the graph untouched",
 "A transaction of another context, one holding an allocated but never filled index, or one whose redirections of existing links form a loop is refused on commit with the graph left exactly as it was; merging a graph of another context is refused with the transaction left as it was. Redirection loops of any other kind, changes or removals of nodes that are no longer there, and filling an index twice or with the wrong type are refused as well, never silently accepted, in every build profile.",
 ["histories","fault_sequences","configurations"],"all transactions that become malformed through crashes, misdirection, stale handles or loops of any length, at any point of a history, with and without debug assertions",
 "The tests hold only a few single-step should_panic cases in the debug profile and never look at the graph after a refusal.",
 [TG,TX,CA],[("context identity check",TG+" do_commit"),("unfilled allocation check",TG+" do_commit"),("loop detection before any change",TG+" redirect_links_vec"),("identity check on merge",TX+" merge"),("fill checks",CA+" fill_back")],
 ["panic of commit/merge/fill","full state of the graph and of the transaction after the refusal"],[("ctx_id","identity of the context",TG)])
p("C05","Removing or redirecting a node leaves no stale link behind",
 "After a commit that removes nodes, no link of any kind anywhere in the graph refers to a removed node: single links become empty, set members disappear, list positions become empty and the list keeps its length and other entries. After a commit that redirects, every link that referred to the old node refers to the end of its redirection chain (or is cleared if that is empty), whatever the length or order of the chain, and no other link changes.",
 ["histories","programs","schedules"],"all histories that created, moved or copied the links by any operation or by another client, all redirection chains, all link kinds",
 "The tests remove and redirect in tiny graphs whose links were created by inserts only; a stale reverse index only shows after a particular history.",
 [TG,TX,TN,NE],[("reverse links",TG+" back_links, remove_node, redirect_links"),("per-field link rewriting",TN+" modify_link"),("chain resolution",TG+" redirect_links_vec")],
 ["all links of all nodes after each commit"])
p("C06","Declared bidirectional links stay mutual, conflicts are refused",
 "After every successful commit, a link declared bidirectional from one present node to another is matched by an opposite link back, whichever side was added, removed, redirected or deleted and by whichever transaction, and links nobody touched are kept. A commit that would need to overwrite an occupied single link or choose between several opposite links is refused, and a commit without such a conflict is not.",
 ["histories","schedules","programs"],"all histories of link additions, removals, redirections, node removals and late insertions from either side, in one or several transactions, for all pairings of single and set links and groups of types",
 "The tests check single add/remove steps from a known state; mutuality after long mixed histories and late-arriving targets is not sampled.",
 [TG,BD,NE,TN,GR],[("net link changes of the commit",TG+" LinkChangeRecorder"),("completion pass",TG+" apply_bidirectional_links"),("declared opposites",BD+" make_bidirectional_link")],
 ["links of both ends after each commit","panic of commit"])
p("C07","Declared link types hold after every commit",
 "After every successful commit, each link whose field or link group is restricted to certain node types and whose target is in the graph points to a node of an allowed type. A commit that would break this by any route - insertion, change, redirection, merge, a target arriving or changing type later - is refused, and one that breaks no restriction is never refused for it.",
 ["histories","programs","schedules"],"all routes by which a link can come to point at a node, over all declarations using variants, sets of variants, type groups, link groups and phantom groups",
 "The tests try one wrong link per declaration by direct insertion; routes over several operations or transactions are not sampled.",
 [TG,LC,NE,GR],[("check of all added links",TG+" check_link_type"),("declared types",LC+" make_check_link_type")],
 ["panic of commit","types of all link targets after each commit"])
p("C08","Saving and restoring reproduces the graph and its future behaviour",
 "For every graph reachable by commits, saving it and restoring the image after a crash yields a graph with the same indices, types, data and links, accepted by the restored context, and saving that again yields an equivalent image. From then on the restored graph answers every further transaction, including removals, redirections and bidirectional completion, exactly as the original would have.",
 ["crash_points","histories","inputs"],"all crash points relative to commits and saves, all reachable graphs, repeated save/crash/restore cycles, text and binary formats",
 "The only serialisation example saves one node once; nothing continues to work on a restored graph.",
 [SE,TG,MC],[("image holds context id and nodes only",SE+" GraphSerializer"),("reverse links and counter rebuilt",TG+" do_deserialize")],
 ["restored graph against the model","behaviour of commits after restore"])
p("C09","Storage faults are reported, torn images never load, the graph survives",
 "If the storage fails while a graph is being saved the save reports an error, never success with an incomplete image, and the graph in memory is unchanged and can be saved again; announced element counts always equal what is written. An image that was cut short at any point or that holds the same index twice is refused on loading and never yields a graph.",
 ["fault_sequences","crash_points"],"write errors, short and interrupted writes and full disks at every byte, torn images cut at any byte, serializer errors at every call",
 "No test injects any storage fault.",
 [SE,MC],[("errors propagated from every serializer call",SE+" Serialize for Graph"),("duplicate detection on load",MC+" new_from_iter")],
 ["result of save/load under injected faults","the bytes on the simulated disk","graph in memory afterwards"])
p("C10","Relabelling and merging preserve the whole structure",
 "Switching a graph to another context, while that context is in use by others, yields the same nodes with the same types, data and links up to a one-to-one renaming to fresh indices of the new context, with no link between them dropped, added or misdirected and links to absent nodes emptied; it then accepts transactions of the new context only. Merging a graph through a transaction adds exactly its nodes and links to the target and changes nothing else.",
 ["histories","schedules","configurations"],"all graphs and link kinds, all overlaps between old and new index ranges, all interleavings with other allocations in the target context",
 "The only example relabels graphs without links whose indices do not overlap the new ones.",
 [TG,TX,MC],[("renaming pass over links",TG+" switch_context"),("node transfer",TX+" merge, "+MC+" merge")],
 ["graph before/after, matched by node identity stored in the data","panic on transactions of the old and new context"])
p("C11","All views of a graph agree with each other",
 "At every moment between commits, lookup by index, full iteration by reference and by value, iteration by type and by type group, counts, iterator length hints, saved images and per-node queries of links and data by name or group all describe the same set of nodes, each node exactly once and under its current type. Lookup of any other index, including empty, removed and foreign ones, finds nothing.",
 ["histories","programs"],"all histories, including removals, updates that change a node's type, merges, relabelling and restore",
 "The tests compare one or two views after one commit.",
 [CA,MC,TG,NE,GR,SE],[("index-to-type dispatch and per-type storage",MC+" make_cate_arena"),("generated iterators",MC+" make_cate_arena_iter")],
 ["get, iter, into_iter, iter_type, iter_group, len, is_empty, size_hint, serialisation"],[("_dispatcher","type of each index",MC)])
p("C12","Outcomes do not depend on process randomness",
 "The same sequence of operations gives the same indices, the same acceptance or refusal of every commit, the same contents and the same orders in which nodes are iterated, whatever hash seeds, context identities and other random values the process draws. Only the identity of contexts itself may differ between runs.",
 ["configurations","histories"],"all histories under all values of the process's random sources",
 "A test runs under one random hash seed and cannot compare runs.",
 [TG,CA,MC,ID],[("insertion-ordered containers throughout",TG+" OrderMap/OrderSet"),("counter, not random, indices",ID)],
 ["complete observation log of a run compared across entropy seeds"])
p("C13","Checked commits examine exactly what the commit changed",
 "A checked commit shows every node that it inserted or changed and that is still present to every node check, every link that it added to every link-added check, and every link that it removed from a node still present to every link-removed check, with the nodes as they are after the commit, and shows them nothing else. It fails, naming the check, if and only if some check rejects what it is shown, and otherwise has the effect of an ordinary commit.",
 ["histories","programs"],"all transactions (data-only changes, linkless inserts, removals, redirections, bidirectional completion) and all sets of checks and verdicts",
 "No test uses checked commits at all.",
 [TG,CK],[("changed nodes and links of the commit",TG+" check_change"),("registered checks",CK+" GraphCheck")],
 ["arguments seen by recording check functions","panic of the checked commit"])
p("C14","Derived node reflection matches the declaration",
 "For every declared node type, the static lists of link names, link kinds and data names match the fields of the declaration.",
 ["programs"],"all node type declarations",
 "Tests sample a handful of declarations; it is a compile-time translation with no run-time state.",
 [TN,"ttgraph_macros/src/lib.rs"],[("derive",TN+" make_typed_node")],["static reflection functions"])
p("C15","Ill-formed declarations are rejected at compile time",
 "A declaration that names unknown variants or links, or uses reserved or unsupported forms, does not compile.",
 ["programs"],"all declarations","Needs a compiler run per declaration.",
 ["ttgraph_macros/src/lib.rs",BD,LC],[("macro diagnostics","ttgraph_macros/src/lib.rs node_enum")],["compiler output"])
p("C16","Iterating one type costs time proportional to that type's nodes only",
 "Iterating the nodes of one type takes time related only to the number of nodes of that type.",
 ["inputs"],"all graphs","Tests do not measure cost.",[CA,MC],[("per-type containers",MC+" make_cate_arena")],["running time"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
