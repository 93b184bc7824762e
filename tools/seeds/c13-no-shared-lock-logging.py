PROPERTY = 'C13'
NEEDS = 'two threads changing integration_with_logging and logging_off at the same time'
BREAKS = 'The two settings no longer share a lock, so two concurrent changes can end in a conflict.'
EDITS = [
    ('core/stores/settings/settings_store.py',
     "            shared_lock_with=(\n                'logging_off',\n            ),",
     '            shared_lock_with=(),'),
    ('core/stores/settings/settings_store.py',
     "            shared_lock_with=(\n                'integration_with_logging',\n            ),",
     '            shared_lock_with=(),'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
from polog.core.stores.settings.settings_store import SettingsStore
store = SettingsStore()
def change(**kwargs):
    def result():
        try:
            config.set(**kwargs)
        except ValueError:
            pass
    return result
k = 1
while True:
    config.set(integration_with_logging=True)
    config.set(logging_off=False)
    reached, ended = race.pause_at(k, change(integration_with_logging=False), change(logging_off=True))
    check(not (store['logging_off'] and not store['integration_with_logging']), 'conflict at %d' % k)
    if not reached or k > 60:
        break
    k += 1
done()
'''
