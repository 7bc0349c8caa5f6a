"""Planted bugs for C06."""
SU = 't5x/state_utils.py'
SEEDS = [
    dict(id='c06-sub-for-expand', property='C06',
         edits=[(SU, "        old_k = p_match.expand(repl)", "        old_k = re.sub(pattern, repl, k)")],
         needs='a rule whose pattern also matches the empty string, such as (.*)',
         breaks='The source name is built twice over (the pattern matches again at the end of the name), so an existing source is reported missing.',
         demo="""
import boot; boot.setup()
from t5x import state_utils as su
ck = {'old': {'target': {'w': 1}, 'step': 3}}
res = su.apply_assignment_map(ck, {'target': {'w': 0}, 'step': 0}, [(r'(.*)', r'old/\\1')])
assert res == {'target': {'w': 1}, 'step': 3}, res
"""),
    dict(id='c06-used-source-not-copied', property='C06',
         edits=[(SU, "    elif key in flat_ckpt:", "    elif key in unmapped_old_keys:"),
                (SU, "      result[key] = flat_ckpt[key]\n    else:", "      result[key] = unmapped_old_keys[key]\n    else:")],
         needs='a parameter no rule matches whose checkpoint value is also the source of another rule',
         breaks='The unmatched parameter keeps its fresh initialisation although the checkpoint has its value.',
         demo="""
import boot; boot.setup()
from t5x import state_utils as su
ck = {'target': {'a': 1, 'b': 2}}
res = su.apply_assignment_map(ck, {'target': {'a': 0, 'b': 0, 'c': 0}}, [('target/c', 'target/a')])
assert res == {'target': {'a': 1, 'b': 2, 'c': 1}}, res
"""),
]
