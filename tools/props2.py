"""Running-config properties (C23-C26)."""
F = 'src/ncdiff/'
TB = 'Assumes: TLC and the projection of running-config text to abstract lines in vp/run.py. '
RC = [F + 'runningconfig.py']


def add(prop):
    prop('C23', 'A running-config diff shows exactly what differs',
         'Removing the lines marked - from the first running-config and the lines marked + from the second leaves the same '
         'configuration (up to the order of lines whose order has no meaning), at every nesting level. Every marked line is really in the '
         'config it is attributed to, unmarked lines are in both, repeated lines are counted, diff_reverse shows the exchange of + and -, '
         'and the truth value and text of the object agree with its diff however often they are read.',
         ['inputs', 'histories'],
         'all pairs of running-configs: nested sections, repeated lines, ordered and orderless commands, "no" lines',
         'Tests compare the diff text of a few dozen hand-written pairs; exactness is over all pairs.',
         RC, [('diff', F + 'runningconfig.py: RunningConfigDiff.diff_list, get_diff, ListDiff'),
              ('orderless lines', F + 'runningconfig.py: handle_orderless')],
         'RunSync.tla model-checks the reference diff over a bounded universe; the diffs of the real code on generated pairs are judged by '
         'TLC with RunningConfig.tla (Without, Truthful). ' + TB)
    prop('C24', 'A running-config diff is empty exactly when nothing meaningful differs',
         'Running-configs that are the same up to the order of neighbouring orderless lines have no diff and need no commands. Any '
         'difference in content, or in the order of lines whose order matters, gives a diff. No line is shown both as removed and as '
         'added unless lines whose order matters changed places.',
         ['inputs'],
         'all pairs of running-configs, in particular permutations of each other, with all orderless commands the library knows at their depths',
         'Tests have one or two permutations per orderless command.',
         RC, [('orderless commands', F + 'runningconfig.py: ORDERLESS_COMMANDS, handle_orderless, match_orderless')],
         'Same / Alike / Restless of RunningConfig.tla evaluated by TLC on the recorded diffs. ' + TB)
    prop('C25', 'CLI commands of a running-config diff take a device there and back',
         'Entering the commands of cli on a device that holds the first running-config leaves the second one, and cli_reverse '
         'leads back, up to the order of lines whose order has no meaning. There are no commands when nothing differs.',
         ['inputs'],
         'all pairs of running-configs in which a command that extends another one word by word is the same setting',
         'Tests compare command text for a few pairs; nothing ever executes the commands.',
         RC, [('commands', F + 'runningconfig.py: get_clis, remove_unnecessary, handle_sections'),
              ('negation', F + 'runningconfig.py: SHORT_NO_COMMANDS, DEFAULT... tables')],
         'The device (Exec / ExecAll) is specified in RunningConfig.tla; TLC executes the commands recorded from the code on it. '
         'Limits: one ip/ipv6 address per section, regular single-valued settings. ' + TB)
    prop('C26', 'Reading a running-config keeps its structure and drops only noise',
         'Whatever the indentation width, blank lines, comments, banner lines before the config and trailing spaces, the same nested '
         'configuration is read; section-exit lines and unindented radius proxy clients and irregular dedents are put in the section they belong to.',
         ['inputs'],
         'all nested configurations and all ways of writing them',
         'Tests feed text in one style each.',
         RC, [('reading', F + 'runningconfig.py: config2list, handle_*')],
         'The same abstract config printed in many random styles is read by the real code and compared by TLC. ' + TB)
