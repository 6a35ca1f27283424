"""Models, their folder and the device (C15-C22, C27)."""
F = 'src/ncdiff/'
TB = 'Assumes: TLC, pyang (used independently of ncdiff to read the test schema) and the projections in vp/. '


def add(prop):
    prop('C15', 'Addresses denote exactly their nodes',
         'The xpath of a config node selects exactly the nodes with that identity (one node, unless a list has no keys), without the instance '
         'exactly its siblings of that name, whatever characters key values contain; it is written as the notation asked for prescribes. '
         'The schema node and the model of a config node are the ones YANG gives it, through choices and augments and after models '
         'are loaded again. Tags convert between all notations or raise ValueError, and replies have one prefix for each of their namespaces.',
         ['inputs', 'histories'],
         'all config and schema nodes of the test schema, all tag notations, all histories of loading models and asking for nodes',
         'Tests look at a few xpaths of a few nodes; reloading, augmented nodes, values with quotes and most notations are never run.',
         [F + 'composer.py', F + 'manager.py'],
         [('xpaths', F + 'composer.py: Composer.get_xpath, keys, path'), ('schema nodes and their cache', F + 'manager.py: get_schema_node, load_model'),
          ('notations', F + 'manager.py: convert_tag, _get_ns')],
         'Address.tla and ModelSet.tla are model-checked over the config universes and over histories of loading; recorded answers of the '
         'real code (paths evaluated by lxml and read by a parser of the driver) and replayed histories of the specification are judged by TLC. ' + TB,
         state=[('nodes', 'remembered schema nodes', F + 'manager.py: ModelDevice.nodes')])
    prop('C20', 'Downloading obtains exactly the modules that are needed',
         'Scanning with download ends, whatever the dependencies among modules (cycles of includes and imports of missing modules included) and '
         'whatever the order, pace and failures of the answers, and then the folder holds exactly the announced modules and what they import '
         'and include, as far as the device hands them out. Imports and dependents of every module are reported as the files say. '
         'With check, an up-to-date folder is left alone; with force it is fetched again; with ignore nothing is requested or changed.',
         ['inputs', 'schedules', 'fault_sequences'],
         'all dependency graphs of up to six modules with submodules, all paces of two download threads, refused and broken modules',
         'Tests have one device with fixed files that are already downloaded; no test runs the download threads.',
         [F + 'model.py', F + 'manager.py'],
         [('download threads', F + 'model.py: ModelDownloader.download_all, download, DownloadWorker'),
          ('dependencies', F + 'model.py: CompilerContext.update_dependencies, ModelCompiler.get_dependencies')],
         'ModelStore.tla (threads, queue, crash, upgrade) is model-checked; the real downloader is run on random worlds with servers that '
         'delay answers until nothing else moves, and the folders are judged by TLC (Needs.tla). Schedules of the real threads are sampled, not enumerated. ' + TB,
         state=[('to_be_downloaded', 'modules already requested', F + 'model.py: ModelDownloader')])
    prop('C21', 'A crash never leaves a folder that is taken for complete',
         'If the process dies at any point of a download or compilation, or the device is upgraded in between, the next scan with check leaves '
         'the folder complete for the device as it is now, and a model loaded afterwards is that of the module in the folder and not '
         'a compiled one of the past or a torn file.',
         ['crash_points', 'histories'],
         'all crash points at operations on files (any directory order), histories of scans, loads, crashes and upgrades',
         'No test ends a process in the middle of anything.',
         [F + 'model.py'],
         [('completion mark', F + 'model.py: ModelDownloader.need_download, download_all'),
          ('cache of compiled models', F + 'model.py: read_xml, write_xml, ModelCompiler.compile')],
         'ModelStore.tla checks Trust, Ready and Fresh over all interleavings with crashes and upgrades; each crash point of real runs is enumerated in '
         'forked processes, histories simulated from the specification are replayed, and TLC judges the folder and the loaded models. ' + TB,
         state=[('capabilities.txt', 'mark of a complete download', F + 'model.py: ModelDownloader.yang_capabilities')])
    prop('C22', 'Files that are no YANG modules do no harm',
         'Scanning a folder that contains unreadable, malformed or no YANG files ends without an exception, reports the dependencies of the good '
         'modules as their files say, and these can be loaded.',
         ['inputs', 'fault_sequences'],
         'folders with good modules and files of a dozen kinds of breakage, empty folders',
         'Tests only have folders of valid modules.',
         [F + 'model.py'],
         [('loading of files', F + 'model.py: ContextWorker.run, CompilerContext.load_context')],
         'Folders generated with breakage are scanned by the real code under a time limit and judged by TLC (StoreTrace.tla). ' + TB)
    prop('C18', 'A model difference is exact',
         'The difference of two versions of a module contains, each once, exactly the schema nodes that were added, deleted or changed in any '
         'attribute, marked as such, and the nodes above them; it is empty (and false) exactly if the models are equal, whatever the order of nodes. Its '
         'text says the same; added, deleted and modified show exactly the changes of that kind, or None, and compare shows what both models say about a node. Neither model is changed; models of different modules are refused.',
         ['inputs'],
         'all pairs of models: random trees with every attribute, and YANG modules compiled in two versions',
         'No test looks at what a model difference contains.',
         [F + 'model.py'],
         [('comparison', F + 'model.py: ModelDiff.compare_nodes, node_less'), ('views', F + 'model.py: ModelDiff.trim, emit_children')],
         'Diff and View of Models.tla are model-checked over all pairs of a small universe (patching the first model with the difference gives the second); '
         'the marks and texts of the real ModelDiff are recorded for random pairs and judged by TLC. ' + TB)
    prop('C19', 'A compiled model says what YANG says',
         'Compiling a module gives a model with exactly its schema nodes (through groupings, refinements, submodules, augments, deviations and shorthand '
         'cases), each with the type, access, keys, order, presence, mandatory, default, status, features, datatype and values that its YANG statements '
         'give it, no matter how the schema is spelled, what was compiled before, and whether the model comes from the cache. Its text shows each node once.',
         ['inputs', 'configurations'],
         'random schemas of all kinds of nodes, written as YANG in random spellings over up to four modules and a submodule',
         'Tests compile a handful of fixed modules and look at a few nodes.',
         [F + 'model.py'],
         [('compilation', F + 'model.py: ModelCompiler.compile, depict_a_schema_node, set_access, set_leaf_datatype_value, type_values'),
          ('text', F + 'model.py: Model.emit_tree, get_name_str'), ('cache', F + 'model.py: write_xml, read_xml')],
         'Expect of Models.tla gives the model of an abstract schema; the driver writes the schema as YANG in random ways, the real compiler compiles it, and TLC compares. ' + TB)
    prop('C16', 'Requests ask for exactly what the caller names',
         'Getting data of named models sends one request whose subtree filter has exactly the readable (get) or writable (get-config) data roots of these '
         'loaded models, from the named or the running datastore; models that are not loaded, or without such roots, are refused and nothing is sent. '
         'edit-config carries exactly the content of the given Config, element or text, including the meaning of prefixes in values, to the named target '
         '(or to running if only that is writable, else candidate), with the parameters in their standard order; all other requests go out as ncclient makes '
         'them. Unknown operations are refused. Replies and notifications come back with one prefix for each namespace, the one of its module if known, with which they can be searched.',
         ['inputs', 'histories', 'configurations'],
         'random sessions with two devices: capabilities, versions of five modules, histories of scans, loads and requests in all forms of arguments',
         'Tests replace the execution of requests and never look at what is sent.',
         [F + 'manager.py', F + '__init__.py'],
         [('requests', F + 'manager.py: ModelDevice.execute'), ('wire format', F + '__init__.py: request, _wrap, _append'),
          ('replies', F + 'manager.py: _get_ns, take_notification')],
         'Device.tla states the contents of requests from the state of a session and is model-checked with small worlds (MCDevice); recorded sessions of the real '
         'ModelDevice over a replaced transport are replayed step by step against it by TLC. Requests of other kinds are compared with those of ncclient before ncdiff changes it. ' + TB,
         state=[('loaded', 'loaded models and their roots', F + 'manager.py: ModelDevice.models, roots')])
    prop('C17', 'Configs of two devices combine exactly if their models agree',
         'Adding, subtracting or applying a delta across two devices gives the result that one device would give if both devices have and have loaded all models of '
         'both configs, in equal versions with equal namespaces and prefixes; otherwise it is refused with ModelMissing or ModelIncompatible. Neither config is changed.',
         ['configurations', 'histories'],
         'pairs of devices with versions of modules that differ in one detail or not at all, histories of scans and loads',
         'Tests have two devices of the same folder; three fixed refusals are tried.',
         [F + 'config.py'],
         [('compatibility', F + 'config.py: ConfigCompatibility'), ('operators', F + 'config.py: Config.__add__, __sub__, ConfigDelta.__init__')],
         'Against of Device.tla gives the reasons to refuse; recorded sessions with two real devices (wire replaced) are replayed against it by TLC, and results are compared '
         'with those within one device. Comparison operators do not check compatibility and are not part of this. ' + TB)
    prop('C27', 'The models of a device are found and loaded as it announces them',
         'The loadable models of a device are those listed by ietf-netconf-monitoring, failing that by ietf-yang-library, failing that by its capabilities, whatever '
         'is missing, refused or broken, asked for once. Namespaces are those of the folder scanned last. Exactly loadable models can be loaded, by name or from '
         'their compiled file, and loading again replaces the model and its roots.',
         ['inputs', 'histories', 'fault_sequences'],
         'random announcements in all three ways with errors of each kind, unusual module names and capability strings, histories of scans and loads',
         'Tests have one fixed list of capabilities and no failures.',
         [F + 'manager.py'],
         [('loadable models', F + 'manager.py: models_loadable'), ('namespaces', F + 'manager.py: namespaces, scan_models'), ('loading', F + 'manager.py: load_model, roots')],
         'Device.tla (Loadable, Inquiry, CanLoad) is model-checked (MCDevice); recorded sessions of the real ModelDevice over a replaced transport are replayed against it by TLC. ' + TB,
         state=[('models_loadable', 'list obtained once', F + 'manager.py: ModelDevice._models_loadable')])
    prop('C28', 'Defaults in use are those of RFC 7950',
         'default_in_use of a schema node gives exactly the leaves and leaf-lists with defaults that are in use below an existing instance without further '
         'data: those reached through containers without presence and default cases of choices only, and these default cases, each once. The model is not changed.',
         ['inputs'],
         'all nodes of random compiled schemas with choices, cases, presence, augments and defaults of all kinds',
         'Three nodes are tested.',
         [F + 'manager.py'],
         [('defaults', F + 'manager.py: default_in_use')],
         'InUse of Models.tla is checked against a declarative definition over all schemas of a small universe (MCDefaults); answers of the real code for every node of random '
         'compiled modules are judged by TLC. ' + TB)
    prop('C29', 'Operands that have no meaning are refused',
         'If two configs have, at a place that both of them have, two nodes of one identity or a list entry that lacks a key or has it twice, then their sum, '
         'their delta and one as a payload for the other raise ConfigError, and no comparison calls them equal or included. Operands of other types, '
         'and invalid values of preferred_create, preferred_replace, preferred_delete, random_depth and random_seed, raise TypeError or ValueError. The operands stay as they are.',
         ['inputs'],
         'all pairs of configs with up to two defects at any place; all combinations of operators and 13 kinds of operands; valid and invalid option values',
         'Tests have one case of a repeated list entry and a few wrong types; whether a defect is noticed depends on where both operands have what.',
         [F + 'config.py', F + 'calculator.py', F + 'netconf.py'],
         [('pairing of nodes', F + 'calculator.py: _pair_children, _get_peers'), ('types and values', F + 'config.py: Config and ConfigDelta operators and constructors')],
         'Ambiguous and Result of Operands.tla; MCOperands checks that ambiguity is symmetric, is that of torn places, and excludes nothing that is included. '
         'Recorded outcomes of the real code are judged by TLC. ' + TB)
