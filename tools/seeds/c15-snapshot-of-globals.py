PROPERTY = 'C15'
NEEDS = 'a global field added or deleted after a function was decorated with an ellipsis'
BREAKS = 'The ellipsis stands for the global fields at the time of decoration.'
EDITS = [
    ('loggers/auto/function_logger.py',
     '        return FieldsContainer(pre_result, default_fields)',
     '        return FieldsContainer(pre_result, {**default_fields})'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config, field
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(dict(record.items())))
@log(extra_fields=[{'x': field(lambda record: 'own')}, ...])
def function():
    pass
config.add_fields(y=field(lambda record: 'global'))
function()
check(seen[0].get('y') == 'global', seen)
config.delete_fields('y')
function()
check('y' not in seen[1], seen)
done()
'''
