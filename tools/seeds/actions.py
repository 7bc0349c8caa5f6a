"""Planted bugs for C11."""
T = 't5x/trainer.py'
DEMO = """
import boot; boot.setup()
import clu.values, numpy as np
from t5x import trainer
def calls(a, vals):
    return [bool(a.run(None, {'t': {'m': clu.values.Scalar(v)}})) for v in vals]
%s
"""
SEEDS = [
    dict(id='c11-tumbling-window', property='C11',
         edits=[(T, "    self._metric_history.pop(0)\n", "    del self._metric_history[: self._patience - 1]\n")],
         needs='an improvement that is not at the end of a window',
         breaks='Only every second window of evaluations is looked at, so training is stopped late.',
         demo=DEMO % """a = trainer.EarlyStoppingAction(('t', 'm'), 'min', patience=3)
assert calls(a, [5., 4., 4., 4.]) == [False, False, False, True]"""),
    dict(id='c11-signed-rtol', property='C11',
         edits=[(T, "    delta = self._atol + self._rtol * abs(previous)\n", "    delta = self._atol + self._rtol * previous\n")],
         needs='a relative tolerance and a negative metric',
         breaks='The tolerance has the wrong sign, so small improvements do not stop training.',
         demo=DEMO % """a = trainer.EarlyStoppingAction(('t', 'm'), 'min', patience=2, rtol=0.5)
assert calls(a, [-4., -5.]) == [False, True]"""),
    dict(id='c11-nan-one-sided', property='C11',
         edits=[(T, "    if np.isnan(value) or np.isinf(value):\n", "    if not value < np.inf:\n")],
         needs='a loss of minus infinity',
         breaks='Training goes on with a loss of minus infinity.',
         demo=DEMO % """a = trainer.TerminateOnNanAction('t', 'm')
assert calls(a, [1., -np.inf]) == [False, True]"""),
    dict(id='c11-history-by-metric', property='C11',
         edits=[(T, "    self._metric_history = []\n",
                 "    self._metric_history = _METRIC_HISTORIES.setdefault(metric, [])\n"),
                (T, "class EarlyStoppingAction(BaseAction):", "_METRIC_HISTORIES = {}\n\n\nclass EarlyStoppingAction(BaseAction):")],
         needs='two actions on one metric',
         breaks='The actions share one history, so every value counts twice and training stops early.',
         demo=DEMO % """a = trainer.EarlyStoppingAction(('t', 'm'), 'min', patience=2)
b = trainer.EarlyStoppingAction(('t', 'm'), 'min', patience=2)
assert [calls(x, [v]) for v in (3., 2., 1.) for x in (a, b)] == [[False]] * 6"""),
]
