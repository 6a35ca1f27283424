"""The properties and their checks; writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'src/ncdiff/'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, state=state, observe=observe))


TB = ('Assumes: TLC, pyang (used independently of ncdiff to read the test schema) and the projection '
      'of XML to abstract trees in vp/tree.py. ')

prop('C01', 'A delta takes its source config to its destination and back',
     'For any two configs of the same device, adding the delta (destination minus source) to the source gives a '
     'config equal to the destination, and subtracting it from the destination gives one equal to the source. '
     'This holds for every combination of preferred operations and for both the minimum and the replace diff type.',
     ['inputs', 'configurations'],
     'all pairs of valid configs (leaves, leaf-lists, containers, lists, choices, defaults, user-ordered nodes, '
     'identityrefs, augmented nodes) and all option combinations',
     'The tests check about forty hand-written pairs with one or two option sets; the law quantifies over all pairs and options.',
     [F + 'config.py', F + 'netconf.py', F + 'calculator.py'],
     [('computing and applying deltas', F + 'netconf.py: NetconfCalculator.sub / add'),
      ('ConfigDelta, + and -', F + 'config.py: Config.__add__, __sub__, ConfigDelta.nc')],
     'Bounded exhaustive TLC check of the delta design (ConfigSync.tla) over eight schema feature families; the real '
     'code is run on TLC-enumerated pairs and on seeded random pairs over the whole test schema, and TLC judges '
     'every recorded outcome. ' + TB)
prop('C02', 'A conforming server executing a delta ends at the destination',
     'The edit-config payload of a delta, executed on the source config by any RFC 6241/7950 conforming server, '
     'is accepted without error and leaves exactly the destination config (up to defaults and system-ordered siblings). '
     'The same holds for the payload of the opposite delta and for the negated delta.',
     ['inputs', 'configurations'],
     'all pairs of valid configs and all option combinations; server = the EditConfig specification',
     'No test runs a payload through an independent server; tests compare payload text with expected text for a few pairs.',
     [F + 'netconf.py', F + 'config.py'],
     [('operations and insert attributes of the payload', F + 'netconf.py: node_sub, get_config_replace, set_create_operation, set_delete_operation')],
     'The server is specified in EditConfig.tla; TLC executes every payload recorded from the code with it. ' + TB)
prop('C03', 'Applying any edit-config payload follows the RFC rules',
     'Adding an edit-config payload to a config gives exactly what RFC 6241/7950 prescribe for merge, create, replace, '
     'delete and remove, for insert first/last/before/after, and for the implicit deletion of other choice cases. '
     'Creating existing data, deleting missing data, unknown operations and missing or wrong insert anchors raise ConfigDeltaError, '
     'whether the payload is added directly or given to ConfigDelta.',
     ['inputs'],
     'all configs and all edit-config payloads over the schema, valid and invalid',
     'Tests apply about a dozen hand-written payloads; most operation x node type x existence x position combinations are never run.',
     [F + 'netconf.py', F + 'config.py'],
     [('application of payloads', F + 'netconf.py: node_add and _node_add_with(out)_peer_*'),
      ('ConfigDelta(delta=...)', F + 'config.py: ConfigDelta.__init__')],
     'Random payloads against TLC-enumerated and random configs; the expected result or error is computed by TLC from EditConfig.tla. ' + TB)
prop('C04', 'Config comparison is inclusion and equality of YANG content',
     'Two configs are equal exactly when they hold the same data apart from explicit defaults and the order of '
     'system-ordered siblings; <= is inclusion (order-preserving for user-ordered nodes), <, >, >=, != follow from these, '
     'and a config is false exactly when it is empty.',
     ['inputs'],
     'all pairs of valid configs, whatever their XML spelling (prefixes, sibling order)',
     'Tests compare a handful of pairs, mostly for equality; the partial-order laws are over all pairs.',
     [F + 'calculator.py', F + 'config.py'],
     [('comparison', F + 'calculator.py: BaseCalculator eq/le/lt, _node_le, _pair_children')],
     'Order laws checked by TLC on the design; answers of the six operators on TLC-enumerated, shrunk, permuted and random pairs judged by TLC. ' + TB)
prop('C05', 'Deltas are empty exactly for equal configs, and minimal',
     'The payload of a delta is empty, and the delta false, exactly when its two configs are equal. '
     'With diff type minimum or replace the payload mentions nothing that is the same on both sides, apart from list keys, the content of replaced nodes, the ancestors of '
     'changes and user-ordered siblings that are restated to fix their order.',
     ['inputs', 'configurations'],
     'all pairs of valid configs and all option combinations',
     'Tests look at expected payload text for a few pairs; minimality is a statement about every pair.',
     [F + 'netconf.py', F + 'config.py'],
     [('removal of unchanged nodes', F + 'netconf.py: node_sub'), ('truth value', F + 'config.py: ConfigDelta.__bool__')],
     'Minimal(...) in Delta.tla is an invariant of the design and is evaluated by TLC on every recorded payload. ' + TB)
prop('C06', 'Payload operations follow the stated preferences',
     'Every node of a payload carries the operation the options ask for: new nodes the preferred create operation, changed nodes the '
     'preferred replace operation, vanished nodes the preferred delete operation, and with diff type replace whole-node replace from the '
     'given depth. No payload puts create or delete on a non-presence container, and no other operation occurs. The payload of diff type '
     'minimum-replace is the minimum one, marked replace at exactly the nodes of the given depth or xpath.',
     ['inputs', 'configurations'],
     'all pairs of valid configs and all option combinations including replace depths',
     'Tests cover a few option values on a few pairs.',
     [F + 'netconf.py'],
     [('choice of operations', F + 'netconf.py: node_sub, get_config_replace, set_create_operation, set_delete_operation')],
     'Prefers(...) and OnNP(...) in Delta.tla are invariants of the design and are evaluated by TLC on every recorded payload. ' + TB)
prop('C07', 'Operations never change their operands and are repeatable',
     'In any sequence of operations (load, +, -, negate, apply, filter, compare, print, payload), each yields a new object and no object '
     'that exists already changes; asking a delta for its payload again gives the same payload. '
     'A randomized payload is a permutation of the siblings at the chosen level with keys first, determined by its seed, and still leads to the destination.',
     ['histories', 'inputs'],
     'all histories of calls on a pool of configs and deltas; all random depths and seeds',
     'Tests use each object once or twice; aliasing shows only when results of earlier calls are used again in later ones.',
     [F + 'config.py', F + 'netconf.py'],
     [('copies before computing', F + 'netconf.py: add, sub (deepcopy)'), ('randomization', F + 'config.py: ConfigDelta.reorder, random_seed')],
     'Behaviours simulated by TLC from ConfigSession.tla plus random ones are replayed in the real code; the recorded contents of all objects '
     'after each call are validated step by step by TLC (SessionTrace.tla). ' + TB)
prop('C08', 'Adding two configs merges them',
     'config1 + config2 holds exactly what merging config2 into config1 on a device would: all of config2, the rest of config1, '
     'new user-ordered nodes at the end, and nothing from choice cases that config2 overrides. '
     'The empty config is neutral on both sides and adding a config to itself changes nothing.',
     ['inputs'],
     'all pairs of valid configs',
     'Tests add three or four pairs.',
     [F + 'netconf.py', F + 'config.py'],
     [('merge', F + 'netconf.py: node_add')],
     'Expected sums computed by TLC from EditConfig.tla for TLC-enumerated and random pairs. ' + TB)
prop('C09', 'Loading a config normalizes it exactly and idempotently',
     'A loaded config holds the input without leaves and leaf-lists that equal their defaults, empty non-presence containers, empty list '
     'entries and obsolete nodes (and deprecated ones on request), and everything else in document order. Loading the result again changes nothing.',
     ['inputs'],
     'all raw configs as devices may report them, with and without validation and remove_deprecated',
     'Tests have a few defaults and one obsolete leaf; interplay of defaults, emptiness and status at all depths is not covered.',
     [F + 'config.py'],
     [('normalization', F + 'config.py: _trim_defaults, _validate_node')],
     'Trim and DropStatus of YangTree.tla give the exact expected tree for each recorded input. ' + TB)
prop('C10', 'Invalid configs are rejected, valid ones accepted',
     'Loading a config raises an error exactly when some node is unknown to the models at its place, some list entry lacks a key, or some '
     'node carries edit-config attributes (operation, insert, value, key); the error is ConfigError or, for data of a model that is not '
     'loaded, ModelMissing.',
     ['inputs'],
     'all raw configs with at most a few defects, at any position and depth',
     'Tests have one unknown node and one missing key.',
     [F + 'config.py', F + 'manager.py'],
     [('validation', F + 'config.py: validate_config, _validate_node'), ('schema lookup', F + 'manager.py: get_schema_node')],
     'Known, HasKeys and Clean of YangTree.tla decide acceptance for each recorded input, defects planted at random places. ' + TB)
prop('C11', 'A config is the same whatever envelope it arrives in',
     'The same content given as XML text, element or RPC reply, in config, data, rpc-reply, edit-config or rpc envelopes, pretty-printed or '
     'with comments, gives the same config, and elements passed in are not modified.',
     ['inputs'],
     'all contents and all supported input forms',
     'Tests use the forms they happen to need, never the same content in all forms.',
     [F + 'netconf.py', F + 'config.py'],
     [('retrieval of config', F + 'netconf.py: NetconfParser.retrieve_config, _copy_element')],
     'Fourteen forms per content, each compared by TLC with the normal form of the content. ' + TB)
prop('C12', 'Identityref and instance-identifier values compare by meaning',
     'Values of identityref and instance-identifier type, in leaves, leaf-lists and list keys, are the same exactly when they denote the same '
     'identity or node, whatever namespace prefixes each document uses and wherever it declares them.',
     ['inputs'],
     'all pairs of values, prefix choices and declaration places',
     'Tests have a few identityrefs with the prefixes that one device used.',
     [F + 'calculator.py', F + 'ref.py'],
     [('resolution of prefixes', F + 'ref.py: IdentityRef, InstanceIdentifier; ' + F + 'calculator.py: _parse_text')],
     'Comparison answers on values spelled in independent random styles judged by TLC on the resolved values. ' + TB)
prop('C13', 'A filtered config is what the expression selects, in context',
     'Filtering a config by a location path gives exactly the selected subtrees, their ancestors, and the keys of the list entries among '
     'these ancestors, and leaves the original unchanged. A path that selects no element gives an empty config; an expression whose value is not '
     'a node set gives the whole config.',
     ['inputs'],
     'all configs and location paths with child and descendant steps, wildcards and value predicates',
     'Tests filter one config three ways.',
     [F + 'config.py'],
     [('filter', F + 'config.py: filter, _node_filter')],
     'Select.tla defines selection and context independently of lxml; TLC computes the expected config for each recorded filter. ' + TB)
prop('C14', 'Config extracted from a reply is its read-write part',
     'Extracting config from a get reply gives exactly the read-write data of the reply in normal form, without any operational state and '
     'without empty remains of it, so it equals what is extracted from the corresponding get-config reply.',
     ['inputs'],
     'all replies mixing configuration and state at any depth',
     'One test extracts one reply.',
     [F + 'manager.py'],
     [('extraction', F + 'manager.py: extract_config')],
     'ReadWrite of YangTree.tla gives the expected config for each recorded reply. ' + TB)


def main():
    import importlib, sys
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    for m in ('props2', 'props3'):
        importlib.import_module(m).add(prop)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                            'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                            'observe_at': list(p['observe']) or ['return values and exceptions of the public API'],
                            'hook_needed': None}}) + '\n')
    checks = [{'property': p['id'],
               'quick_cmd': '/opt/venv/bin/python check.py %s' % p['id'],
               'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % p['id'],
               'evidence_file': 'evidence/%s.json' % p['id'],
               'technique': 'TLA+ specification checked with TLC; traces recorded from the code validated by TLC against it',
               'level': 'model_checking', 'level_note': p['note']} for p in sorted(P, key=lambda p: p['id'])]
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py', 'checks': checks,
         'not_applicable': [],
         'notes': 'All specifications are in spec/ (TLA+, TLC). No hooks are needed in /repo: the API exposes the abstract state. '
                  'See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
