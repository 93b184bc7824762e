PROPERTY = 'C13'
NEEDS = 'a conflicting change'
BREAKS = 'The new value is stored before the conflicts are checked and stays after the error.'
EDITS = [
    ('core/stores/settings/setting_point.py',
     '            self.prove_conflicts(old_value, value)\n            self.value = value\n',
     '            self.value = value\n            self.prove_conflicts(old_value, value)\n'),
]
DEMO = r'''
import race
from race import check, done
from polog import config
from polog.core.stores.settings.settings_store import SettingsStore
try:
    config.set(max_queue_size=5)
    check(False, 'accepted')
except ValueError:
    pass
check(SettingsStore()['max_queue_size'] == 0, SettingsStore()['max_queue_size'])
done()
'''
