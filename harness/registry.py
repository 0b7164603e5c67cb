"""which driver decides which property"""


def _lazy(mod, fn='check'):
    def run(ctx):
        import importlib
        return getattr(importlib.import_module('harness.' + mod), fn)(ctx)
    return run


CHECKS = {p: _lazy('loop') for p in ('C01', 'C02', 'C03', 'C04', 'C05')}
CHECKS['C09'] = _lazy('space')
CHECKS.update({p: _lazy('suggest') for p in ('C06', 'C07', 'C08', 'C10', 'C22')})
CHECKS['C11'] = _lazy('design')
CHECKS['C12'] = _lazy('parallel')
CHECKS['C13'] = _lazy('cost')
CHECKS['C14'] = _lazy('files')
CHECKS['C15'] = _lazy('acq')
CHECKS['C16'] = _lazy('batch')
CHECKS['C17'] = _lazy('options')
CHECKS['C18'] = _lazy('config')
CHECKS['C19'] = _lazy('output')
CHECKS['C20'] = _lazy('surrogate')
CHECKS['C21'] = _lazy('isolate')
CHECKS['C24'] = _lazy('experiment')
CHECKS['C23'] = _lazy('entropy')
