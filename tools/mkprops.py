"""Writes /verif/properties.jsonl (kept as a script only for readability)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None,
         state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w}
                                       for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = state
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Saving and reloading a graph loses and changes nothing',
     'Whatever a layer holds (nodes, attributes with value/type/comment, code, '
     'comments, enabled state, execution links, instance paths, child order, '
     'start points, references, mute/solo/color/alias settings, overrides and '
     'meta data) is the same after saving it to a file and loading that file '
     'back. The reloaded graph composites to the same nodes, attributes and '
     'code as the one that was saved. Unknown meta data is carried through.',
     ['inputs', 'histories'],
     'Every graph content reachable by loading a valid file and editing it, '
     'including unicode, empty and multi-line code, missing intermediate '
     'nodes and references.',
     'Two literal graphs are compared with their save data; no generated '
     'content, no edited content and never through the disk.',
     ['nxt/nxt_layer.py', 'nxt/nxt_node.py', 'nxt/nxt_io.py'],
     [('layer save data', 'nxt_layer.py SpecLayer.get_save_data'),
      ('node to dict', 'nxt_node.py get_node_as_dict'),
      ('dict to node', 'nxt_node.py create_spec_node')],
     ['saved json', 'save data of the reloaded layer'])

prop('C02', 'Saved files are canonical and independent of edit order',
     'Two layers with the same content produce byte-identical files, whatever '
     'order their nodes, attributes and settings were created in; nodes and '
     'attributes appear sorted and every section in its fixed place. Loading '
     'a saved file and saving it again reproduces it byte for byte (a child '
     'order that does not mention an existing child is completed with it '
     'when loaded), and producing the save data changes nothing in the open '
     'graph.',
     ['inputs', 'histories'],
     'Every layer content and every permutation of the order it was authored '
     'in.',
     'One fixed file is compared with its own save output.',
     ['nxt/nxt_layer.py', 'nxt/nxt_node.py', 'nxt/nxt_io.py'],
     [('ordering', 'nxt_layer.py order_save_dict, order_nodes_dict; '
       'nxt_node.py _order_node_dict')],
     ['saved bytes'])

prop('C03', 'The strongest active layer decides every node opinion',
     'For each node in a composite, its code, comment, enabled state, '
     'execution link, start point, instance path and each of its own '
     'attributes come from the strongest active layer that has an opinion, '
     'and the composite holds exactly the nodes of the active layers plus '
     'those instancing adds. Muted layers contribute nothing, soloed layers '
     'silence all others, and override settings on referencing layers win '
     'over the layer\'s own. Where nodes are placed and which are collapsed '
     'follows the strongest layer which says so. The reported source of every opinion is the '
     'layer and path it came from.',
     ['inputs', 'configurations'],
     'Every stack of layers, every assignment of opinions to layers, every '
     'mute/solo/override combination and every starting layer.',
     'A handful of hand-written two and three layer stacks are checked for a '
     'few attributes; mute/solo only for file tokens.',
     ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py'],
     [('reference arc', 'stage.py build_stage, comp_pre_proxies'),
      ('active layers', 'nxt_layer.py get_active_layers, get_muted, '
       'get_soloed')],
     ['attribute values, code lines and sources on the composite'])

prop('C04', 'Attributes resolve own opinion, then parent, then instance',
     'An attribute of a composite node is taken from the node\'s own layers '
     'if they have it, else from its nearest existing ancestor, else from its '
     'instance source, where a node always beats what that node itself '
     'derives from. A node reports as its own exactly the attributes its '
     'active layers define, and can see every attribute of its ancestors and '
     'instance source. Code and comments are taken from the instance source '
     'but never from the parent.',
     ['inputs', 'configurations'],
     'Every hierarchy, every placement of attributes on nodes and layers and '
     'every acyclic combination of instancing with parenting.',
     'A few fixed graphs check a few attributes.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('parent and instance arcs', 'stage.py post_proxy_comp, '
       '_safe_mro_add_base_class'),
      ('attribute listings', 'stage.py get_node_inherited_attr_names, '
       'get_node_instanced_attr_names; nxt_layer.py '
       'get_node_local_attr_names')],
     ['attribute values and name listings on the composite'])

prop('C05', 'Instances mirror the whole tree below their source',
     'A node that instances a source shows, under itself, every descendant of '
     'the source at the same relative position, with the source\'s code, '
     'comments, enabled state and attributes unless overridden locally; '
     'chained and nested instances mirror transitively, and an explicitly '
     'empty instance path stops mirroring at that node. A node which is a '
     'mirrored child as well mirrors as that, in place of an instance path '
     'of its own. Nothing else is added.',
     ['inputs', 'configurations'],
     'Every acyclic instancing structure: chains, nesting, instances of '
     'instances, sources built up over several layers, relative paths, local '
     'overrides and implied (unauthored) intermediate nodes.',
     'About ten fixed instancing layouts are checked for selected nodes.',
     ['nxt/stage.py'],
     [('proxy discovery', 'stage.py discover_proxies, comp_proxies, '
       'create_instance_node')],
     ['paths, code and attributes on the composite'])

prop('C06', 'Compositing always ends, is repeatable and changes no layer',
     'Building a composite terminates for every graph, even when instance '
     'paths are missing, relative beyond the root, self referencing, '
     'ancestral or mutually cyclic, and never raises; without cyclic '
     'instancing, and without parents and instances that demand '
     'contradicting orders, it completes without failure. Building again '
     'gives the same result, and building leaves the save data of every '
     'layer as it was.',
     ['inputs', 'histories'],
     'Every graph including ill-formed ones, and every number of rebuilds.',
     'Tests build well-formed graphs once.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('invalid instance rejection', 'stage.py discover_proxies, '
       'instance_is_possible'),
      ('failure capture', 'stage.py build_stage')],
     ['composite contents, failure flag, layer save data'])

prop('C07', 'Hierarchy queries always agree with the actual nodes',
     'Children, descendants and ancestors reported for any node, in every '
     'return form, ordered or not, with or without implied nodes, are exactly '
     'those given by the set of node paths at that moment, each listed once; '
     'ordered listings follow the child order first. No sequence of edits '
     'and queries makes an answer stale.',
     ['histories', 'inputs'],
     'Every sequence of node additions, deletions, renames, re-parentings '
     'and queries on authored layers and on composites.',
     'Queries are checked on freshly loaded fixed files; caching is tested '
     'once.',
     ['nxt/nxt_layer.py'],
     [('child queries and caches', 'nxt_layer.py children, descendants, '
       'ancestors, clear_node_child_cache'),
      ('cache invalidation', 'stage.py add_node, delete_node, parent_nodes, '
       'set_node_name')],
     ['query results'],
     [{'name': 'child caches', 'meaning': 'children per parent path',
       'where': 'nxt_layer.py _cached_children, _cached_implied_children'}])

prop('C08', 'Structural edits move exactly what they should',
     'Adding, deleting, renaming, re-parenting and duplicating nodes changes '
     'exactly the node concerned and its descendants: nodes that move keep '
     'all their content and stay collapsed, every other node is untouched, '
     'no two nodes share a path, and a name that is taken, in the layer or in '
     'the composite, is replaced by an unused one. After any '
     'sequence of edits the layer is consistent: every node is found under '
     'its path, listed once, and is saved and reloaded as it is.',
     ['histories'],
     'Every sequence of structural edits on a layer.',
     'Single edits on fixed graphs.',
     ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_path.py'],
     [('edits', 'stage.py add_node, delete_node, duplicate_node, '
       'parent_nodes, set_node_name')],
     ['save data of the edited layer'])

prop('C09', 'Values, code, enabled state and new nodes edited with an open '
     'composite',
     'When attribute values are set or deleted, code is written or emptied, '
     'a node is enabled or disabled, or a node with a name not in use is added '
     'to a layer which counts, together with an existing '
     'composite, the composite then answers for every node (attributes and '
     'their values, code, enabled state, resolved or not) like one rebuilt '
     'from scratch after the same edit, whatever other layers and instances '
     'say about the same nodes; only the order of an added node among its '
     'siblings is left to the next rebuild.',
     ['histories'],
     'Every history of such edits on the layers of any graph, with '
     'overridden nodes, instances and nodes which only instancing mirrors.',
     'A few single edits are compared with constants, in graphs where no '
     'other layer has an opinion.',
     ['nxt/stage.py'],
     [('live update of attributes', 'stage.py node_setattr_data, '
       'delete_node_attr'),
      ('live update of code', 'stage.py set_node_code_lines'),
      ('live update of the enabled state', 'stage.py set_node_enabled')],
     ['composite contents after the edit'])

prop('C10', 'Tokens in text resolve to the values they name, and only they',
     'Resolving a text replaces every attribute token by the fully resolved '
     'value seen from that node (or from the node path the token names), '
     'innermost first, and leaves all other characters as they are; what does '
     'not exist is empty text. The tokens for the path of the node and the '
     'color of the strongest layer it is on become these, and '
     'tokens a plugin registers become what the plugin makes of them. Text '
     'without tokens and '
     'text with unbalanced token syntax comes back unchanged. The list of '
     'tokens reported for a text is exactly its outermost balanced tokens in '
     'order, those ready to be resolved are the ones that hold no others.',
     ['inputs'],
     'Every text over token syntax: nesting, repetition, adjacency, '
     'unbalanced and empty tokens, unknown names, absolute and relative node '
     'paths, values that contain tokens.',
     'About ten literal strings.',
     ['nxt/stage.py', 'nxt/tokens.py'],
     [('token scanner', 'tokens.py get_standalone_tokens, '
       'atomic_token_partition'),
      ('resolve', 'stage.py resolve, resolve_attr_ref_token')],
     ['resolved strings'])

prop('C11', 'Node path operations agree with the hierarchy they describe',
     'Path helpers are consistent: splitting and joining a node path are '
     'inverse, the parent of a joined path is what it was joined to, depth, '
     'trimming, root, ancestors and ancestor tests agree with the list of '
     'names, and replacing an ancestor rewrites exactly that leading part. '
     'Expanding a relative path from a node gives the node one reaches by '
     'walking its steps.',
     ['inputs'],
     'Every node path, attribute path and relative path, with names that are '
     'prefixes or repetitions of each other.',
     'Around twenty literal paths.',
     ['nxt/nxt_path.py'],
     [('path functions', 'nxt_path.py')],
     ['returned paths'])

prop('C12', 'Execution order follows links, hierarchy and enabled state',
     'Executing from a start node runs that root tree depth first in child '
     'order beginning at the start node, then each root linked after it in '
     'turn; each node runs at most once. A disabled node and everything '
     'below it is skipped while the chain continues past it; a start node '
     'that is not disabled itself runs, even below a disabled one. Computing '
     'the order always ends, links that loop or lead nowhere included.',
     ['inputs', 'configurations'],
     'Every hierarchy, child order, link structure (including links to '
     'missing nodes and loops), enabled pattern and start node, with '
     'instances and layers.',
     'Four fixed graphs.',
     ['nxt/nxt_layer.py', 'nxt/stage.py'],
     [('order', 'nxt_layer.py get_exec_order, get_root_exec_order'),
      ('execution', 'stage.py execute, execute_nodes')],
     ['the sequence of nodes that actually ran'])

prop('C13', 'Values computed by a node reach exactly who should see them',
     'While a graph executes, code sees attributes as the values their text '
     'denotes, an attribute changed on a node is seen afterwards by '
     'that node\'s descendants and instances that do not override it and by '
     'tokens naming it, and never by its parent, siblings or instance source. '
     'Global names set by code persist to later nodes of the same run. '
     'Parameters given to a run replace the attribute values they name.',
     ['programs', 'configurations'],
     'Every small program of attribute reads and writes spread over nodes, '
     'hierarchies and instances, with any parameters.',
     'A few fixed graphs.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('runtime nodes', 'stage.py run, execute_nodes, setup_runtime_layer')],
     ['values observed by executed code and on runtime nodes'])

prop('C14', 'Executing a graph never alters the graph',
     'Running a graph, whether it succeeds, exits early or raises, leaves '
     'every layer\'s save data, every file on disk, an already built '
     'composite and the working directory as they were. Running it again '
     'with the same parameters produces the same values and order.',
     ['programs', 'histories'],
     'Every graph program, including ones that raise or exit, and repeated '
     'runs.',
     'No test compares the graph before and after a run.',
     ['nxt/stage.py', 'nxt/session.py'],
     [('runtime copy', 'stage.py setup_runtime_layer, run')],
     ['save data and composite before and after'])

prop('C15', 'Failures and exits in node code are contained and located',
     'An error in a node\'s code stops the run with an error naming that '
     'node, the failing line and what was called from it, and no later '
     'node runs. Leaving a node '
     'early skips only the rest of that node; leaving the graph early stops '
     'the run there with the exit signal (not an error), which carries its '
     'reason and the run as far as it got. Values set before the failure or exit are '
     'kept as far as the run got.',
     ['programs', 'fault_sequences'],
     'Every position of a raise, syntax error or exit in every program.',
     'One early-exit graph.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('error wrapping', 'stage.py execute_nodes, run; runtime.py '
       'GraphError, ExitNode, ExitGraph')],
     ['raised error type, node path and line; which nodes ran'])

prop('C16', 'The record of a run survives saving and loading',
     'After a run the cache lists exactly the nodes that ran, with the code '
     'as it was executed and the values they ended with, and reading a saved '
     'cache back gives the same nodes, code and values.',
     ['inputs', 'programs'],
     'Every executed program with values that can be written to the file.',
     'Not tested.',
     ['nxt/nxt_layer.py', 'nxt/stage.py'],
     [('cache', 'nxt_layer.py CacheLayer')],
     ['cache contents'])

prop('C17', 'Older files load with all of their content',
     'A file written in any supported older format version loads with every '
     'node, attribute, code line, link, layer setting and reference it '
     'contains, in the current format. Converting an already current file '
     'changes nothing.',
     ['inputs'],
     'Every content expressible in each supported older version.',
     'One pair of files of one old version.',
     ['nxt/legacy.py', 'nxt/nxt_io.py'],
     [('converters', 'legacy.py')],
     ['converted data and loaded layer'])

prop('C18', 'Unreadable or incompatible files are refused cleanly',
     'Loading a file with a newer version, a version older than can be '
     'converted, a malformed version, an unknown extension, a missing path '
     'or invalid content is refused with an error and leaves the open '
     'graphs, all files, the environment and the working directory as they '
     'were, also when the file is one a graph references (unless it is left '
     'out of that graph); saving to an unsupported extension, or content '
     'that has no saved form, leaves all files as they were. Every file of '
     'the current version, whatever its patch number, is accepted.',
     ['inputs', 'fault_sequences'],
     'Every version string, extension and damaged content, at top level and '
     'in references.',
     'Not tested.',
     ['nxt/nxt_io.py', 'nxt/stage.py', 'nxt/session.py'],
     [('version gate', 'nxt_io.py load_file_data'),
      ('extension gate', 'nxt_io.py save_file_data')],
     ['raised error, cwd, stage layers'])

prop('C19', 'References load in strength order, relative to their file',
     'Loading a graph loads the layers it references depth first in listed '
     'order, each path taken relative to the file that names it whatever the '
     'working directory is (or where the configured roots or a registered '
     'path expander find it), and links each layer to the one that referenced '
     'it. References to files that are missing, of an unknown extension or of '
     'an incompatible version, and references back to a file that is already '
     'being loaded, are skipped without losing the others. The working '
     'directory is the same afterwards.',
     ['inputs', 'fault_sequences', 'configurations'],
     'Every tree of referencing files over directories, any subset missing '
     'or incompatible, circles, repetition, any form of path and any working '
     'directory.',
     'One fixed relative reference.',
     ['nxt/stage.py', 'nxt/nxt_path.py', 'nxt/nxt_io.py'],
     [('loading', 'stage.py load_from_file'),
      ('path expansion', 'nxt_path.py full_file_expand')],
     ['layer list, parents, cwd'])

prop('C20', 'File tokens find the right existing file',
     'A file token finds the first existing file when its text, resolved as '
     'the graph is displayed from each layer downwards in turn, is looked up '
     'in the configured roots in their order and then in the directory of '
     'that strongest active layer; a file list token gives every distinct '
     'file found that way, in that order; nothing found is empty text. A '
     'path token gives the full path in the first existing root, else in the '
     'directory of the displayed layer, existing or not. A contents token '
     'gives that file\'s text with its own tokens resolved. Attribute tokens '
     'inside resolve like anywhere else. Resolving never changes the working '
     'directory, the environment or any file.',
     ['inputs', 'configurations'],
     'Every distribution of existing files over layer directories and roots '
     'and every token form.',
     'Fixed fallbacks fixtures.',
     ['nxt/plugins/file_fallbacks.py', 'nxt/stage.py', 'nxt/nxt_path.py'],
     [('fallbacks', 'plugins/file_fallbacks.py'),
      ('file tokens', 'stage.py resolve_file_token, resolve_file_path_token, '
       'resolve_contents_token')],
     ['resolved strings, cwd'])

prop('C21', 'Layer settings follow the overriding parent, and can be undone',
     'The alias, color, lock, mute and solo shown for a layer are those set by '
     'the topmost layer above it that overrides them, else its own; setting '
     'an override changes only that layer, and removing it restores what was '
     'shown before. Overrides are saved with the layer that holds them.',
     ['histories', 'configurations'],
     'Every tree of layers and every sequence of setting and removing '
     'settings and overrides.',
     'Not tested.',
     ['nxt/nxt_layer.py'],
     [('overrides', 'nxt_layer.py get_comped_layer_overs, set_*_over')],
     ['reported settings'])

prop('C22', 'Generated names are legal and unused',
     'A name offered for a new node or attribute contains only legal '
     'characters, does not start with a digit, is not reserved and is not '
     'used by a sibling or by the node, equals the wish when that is legal '
     'and free, and asking never changes the graph.',
     ['inputs'],
     'Every wished name, set of existing names and layer stack.',
     'Two collisions.',
     ['nxt/stage.py'],
     [('naming', 'stage.py legalize_name, get_unique_node_name, '
       'get_unique_attr_name')],
     ['returned names'])

prop('C23', 'Attribute edits take effect where made and nowhere else',
     'Adding, setting, commenting, renaming or deleting an attribute on a '
     'layer changes that attribute on that node of that layer only: what the '
     'composite shows is the new value wherever that opinion wins and the old '
     'one elsewhere. Renaming keeps value, type and comment; deleting '
     'reveals the next weaker opinion.',
     ['histories'],
     'Every sequence of attribute edits over layers, parents and instances.',
     'Single edits.',
     ['nxt/stage.py'],
     [('attribute edits', 'stage.py add_node_attr, delete_node_attr, '
       'rename_node_attr, node_setattr_data')],
     ['layer save data and composite values'])

prop('C24', 'Every way of running a graph gives the same result',
     'Running a graph through the python entry point, an open session, the '
     'command line, a sub graph node, a remote context or a temporary saved '
     'copy of the open graph executes the same nodes in the same order with the same '
     'resulting values for the same start (or list of nodes) and parameters. '
     'Incomplete parameters on the command line are refused before anything '
     'runs.',
     ['programs', 'configurations'],
     'Every small graph, start node and parameter set.',
     'One graph per entry point, checked for completion.',
     ['nxt/__init__.py', 'nxt/cli.py', 'nxt/session.py', 'nxt/stage.py',
      'nxt/builtin'],
     [('entry points', '__init__.py execute_graph; cli.py execute; session.py '
       'execute_graph; stage.py save_to_temp')],
     ['trace written by the executed nodes'])

prop('C25', 'Values survive being written as attribute text',
     'A python value (number, bool, None, bytes, or a list, tuple, dict or '
     'set of such values and strings) written as an attribute\'s text '
     'evaluates back to an equal value of the same type, wherever the '
     'attribute is inherited or referenced. Any other text, quoted strings '
     'included, evaluates to itself. Quoting a string for use in code (w) '
     'denotes that same string.',
     ['inputs'],
     'Every value of the supported types, nested, and every text.',
     'One value per type.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('evaluation', 'stage.py get_attr_as_real_data_type, '
       'determine_nxt_type, w')],
     ['evaluated values and reported types'])

prop('C26', 'The order of children follows the strongest layer',
     'The child order of a composite node names every child that any active '
     'layer or its instance source orders there, each once. It keeps the '
     'relative order the strongest active layer gives, is exactly the '
     'only order when one active layer alone orders the node, and is that of '
     'the instance source when the node itself has none.',
     ['inputs', 'configurations'],
     'Every combination of child orders over layers and instances, '
     'agreeing, partial or contradicting.',
     'Two merged orders are compared with constants.',
     ['nxt/nxt_layer.py', 'nxt/stage.py', 'nxt/nxt_node.py'],
     [('order merging', 'nxt_node.py list_merger'),
      ('composite order', 'stage.py build_stage, comp_pre_proxies')],
     ['child order of composite nodes'])

prop('C27', 'Layers added to or removed from an open graph take their place',
     'Referencing a file or a new layer under a layer of an open graph, '
     'putting one on top of the graph, or removing a layer leaves the open '
     'graph like the one which is saved and loaded again: the same layers '
     'in the same order with the same parents, references, content and '
     'settings, and the same composite. The layer comes with everything it '
     'references in turn (references which cannot be loaded or lead back to '
     'a file being loaded are left out) and goes with it, and other layers '
     'keep all their own references and content.',
     ['histories', 'configurations'],
     'Every history of referencing, creating, removing and editing layers, '
     'over files in any folders which reference each other.',
     'No test adds a layer to or removes one from an open graph.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('adding', 'stage.py Stage.new_sublayer'),
      ('removing', 'stage.py Stage.remove_sublayer')],
     ['layers of the graph', 'composite', 'files saved afterwards'])

prop('C28', 'Where a value comes from and what it refers to is reported truthfully',
     'What is reported about an attribute (value, type, comment and source), '
     'the list of all opinions on it or on the code, comment, enabled state, '
     'execution link or start point of a node, the layers which hold such an '
     'opinion, and the layer and value a node owns itself are exactly those '
     'of the layers, strongest first: the node on each layer, then every '
     'source of its instance. The attributes of other nodes a value or piece '
     'of code refers to are reported with the full path of the node which is '
     'meant, seen from the node the value is shown on, however the reference '
     'is spelled and nested. '
     'A report is a copy: changing it changes nothing.',
     ['inputs', 'configurations'],
     'Every set of layers and instances, every attribute name, every text '
     'with any number of references.',
     'Tests look at the history of one attribute over two layers.',
     ['nxt/stage.py', 'nxt/tokens.py', 'nxt/nxt_path.py'],
     [('opinions', 'stage.py get_historical_opinions, get_node_attr_data, '
       'get_layers_with_opinion, get_uncomped_opinion'),
      ('references', 'stage.py get_node_attr_external_sources, '
       'get_node_code_external_sources')],
     ['returned opinions', 'returned layers', 'returned attribute paths'])

prop('C29', 'What a node shows can be written onto a layer, and put back',
     'The data reported for a node holds exactly the attributes it has on '
     'active layers (all it can see, if asked to), with the values and '
     'comments it shows, and its other opinions. Writing them onto the node of any '
     'active layer changes that node of that layer only, and a composite '
     'built afterwards shows the same as before (but for the order of its '
     'children where a stronger layer orders them too; nodes below take what was '
     'inherited from the node once that has become its own). Nodes of a '
     'layer which are deleted and added again with the data taken before '
     'are as they were, whatever was edited in between.',
     ['inputs', 'configurations'],
     'Every set of layers and instances, every node, target layer and set of '
     'deleted nodes.',
     'No test transfers the data of a node.',
     ['nxt/stage.py'],
     [('transfer', 'stage.py Stage.get_node_data, set_node_data, '
       'transfer_node_data')],
     ['node data returned', 'layers', 'composite built afterwards'])

prop('C30', 'Code run in the context of a node acts as code of that node',
     'Code handed to a graph to be run as a node sees and changes exactly '
     'what it would if it were that node\'s own code: attributes, tokens, '
     'global names, other nodes of the same run. Given with a run it goes on '
     'with that run, before, between and after nodes, and the nodes run '
     'afterwards see what it changed; given with a composite it is a run of '
     'its own. An exit is handed back and what was set before it kept, a '
     'failure raised with the line of that code. The nodes\' own code is not '
     'run and not replaced, and the composite does not change.',
     ['programs', 'histories'],
     'Every graph program, every piece of code, any sequence of nodes and '
     'pieces of code in one run.',
     'One test runs one line on one node.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('custom code', 'stage.py execute_custom_code, run')],
     ['values observed by executed code and on runtime nodes'])

prop('C31', 'Graphs open side by side do not affect each other',
     'Several graphs can be open at once, of the same file or of others which '
     'share references. Whatever is done to one of them (editing, settings of '
     'its layers, adding and removing layers, running, saving, closing) '
     'leaves the layers, settings, composites and the outcome of runs of all '
     'others as they are. A session holds exactly the graphs that were opened '
     'and not closed.',
     ['histories', 'configurations'],
     'Every set of open graphs and history of what is done to them.',
     'No test has two graphs open.',
     ['nxt/session.py', 'nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/runtime.py'],
     [('open graphs', 'session.py load_file, new_file, unload_file'),
      ('loading', 'stage.py load_from_filepath, nxt_io.py')],
     ['layers, settings, composites and runs of the other graphs'])

prop('C32', 'Logs get every message, and only stale logs are cleaned up',
     'A log gets every message from when it is started until it is stopped, '
     'whole and in order, however many logs there are. Messages sent by '
     'another process arrive once, in order and unchanged (but for a level '
     'marked as remote) however the connection cuts them; a record cut off by '
     'the end of the connection is dropped and nothing else. What is printed '
     'follows the verbosity asked for last: nothing, execution messages and '
     'above, or everything. Starting a log '
     'removes logs recorded earlier which were not written to for 48 hours, '
     'and no other file; the record of logs then holds the new log and the '
     'fresh ones of before.',
     ['histories', 'schedules'],
     'Every history of logs started, stopped, ageing and vanishing among '
     'other files, every sequence of messages and every way of cutting them '
     'in pieces.',
     'No test starts a log or receives a message.',
     ['nxt/nxt_log.py'],
     [('logs', 'nxt_log.py make_session_log, stop_session_log, '
       'track_log_file'),
      ('messages of other processes', 'nxt_log.py LogRecordStreamHandler')],
     ['content of the logs', 'files left', 'record of the logs'])

prop('C33', 'File paths mean the same file however they are written',
     'Expanding a file path gives the absolute path, with forward slashes and '
     'without links, of the file it names: a leading ~ is the home of the '
     'user, environment variables written in the style of any platform '
     '($NAME, ${NAME}, %NAME%) stand for their values whatever text is next '
     'to them, ones without a value and all other text stay, and a relative '
     'path starts at the folder given, else at the working directory, which '
     'is the same afterwards, also on failure. Converting a path to the style '
     'of another platform keeps the name of every variable and all other '
     'text, changes nothing that is in that style already, and converting it '
     'back again names the same variables and text.',
     ['inputs', 'configurations'],
     'Every path made of text and variables of any style that can be read in '
     'one way only, every environment, start folder and target platform.',
     'Three literal paths whose variables are all separated by slashes.',
     ['nxt/nxt_path.py'],
     [('expansion', 'nxt_path.py full_file_expand'),
      ('styles of platforms', 'nxt_path.py unify_env_vars')],
     ['expanded and converted paths', 'working directory'])

prop('C34', 'Interpreters added as contexts stay available and run graphs',
     'A context made with nxt.create_context is known under its name at once '
     'and whenever nxt is started again, from any working directory, with '
     'the interpreter, arguments and context graph it was made with, whatever '
     'characters those contain; without a graph it gets one that can run '
     'graphs, the prebuilt one for Maya and Blender interpreters. A context without a name, with a name that is taken (here or '
     'by another nxt) or with a graph that is no existing file is refused, and leaves the contexts and their '
     'files as they were. A graph run by such a context records and yields '
     'what it does when run directly.',
     ['histories', 'configurations'],
     'Every sequence of contexts made, refused and loaded again.',
     'Contexts are not tested.',
     ['nxt/__init__.py', 'nxt/plugin_loader.py', 'nxt/remote/contexts.py',
      'nxt/remote/server.py'],
     [('contexts', '__init__.py create_context'),
      ('loading', 'plugin_loader.py load_plugins'),
      ('running', 'server.py exec_in_headless')],
     ['contexts known', 'files of the plugin folder', 'record of a run'])

prop('C35', 'What runs behind a command port is reported whole and in order',
     'A graph loaded, refreshed and run through the socket client records and '
     'yields what it does when run directly, and the listener gets, whole '
     'and in order: every log record once, a wait message before and after '
     'each command, one error message for each run that failed, and the '
     'record of the run as it is in the cache file when it is asked for. '
     'When the connection is lost or closed, commands and logging go on '
     'without failing.',
     ['histories', 'fault_sequences'],
     'Every sequence of commands and log messages, with the connection lost '
     'at any point.',
     'The socket client is not tested.',
     ['nxt/remote/nxt_socket.py'],
     [('messages', 'nxt_socket.py send_to_server, IPCWait'),
      ('commands', 'nxt_socket.py SocketClientModel'),
      ('logs', 'nxt_socket.py NXTSocketLogHandler')],
     ['messages a listener on the loopback network receives'])


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    drop = set()
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fp:
        for p in P:
            if p['id'] in drop:
                continue
            assert len(p['title']) <= 80, p['title']
            fp.write(json.dumps(p) + '\n')


main()
