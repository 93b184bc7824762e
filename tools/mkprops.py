"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe),
                               hook_needed=None)))


ENG = 'polog/core/engine/engine.py'
POOL = 'polog/core/engine/real_engines/multithreaded/pool.py'
WORK = 'polog/core/engine/real_engines/multithreaded/worker.py'
ITEM = 'polog/core/log_item.py'
FL = 'polog/loggers/auto/function_logger.py'
CL = 'polog/loggers/auto/class_logger.py'
REG = 'polog/core/stores/registering_functions.py'
SP = 'polog/core/stores/settings/setting_point.py'
SS = 'polog/core/stores/settings/settings_store.py'
AB = 'polog/loggers/handle/abstract.py'
HL = 'polog/loggers/handle/handle_log.py'
MSG = 'polog/loggers/handle/message.py'
ROUT = 'polog/loggers/router.py'
FIN = 'polog/loggers/finalizer.py'
TREE = 'polog/data_structures/trees/named_tree/tree.py'
FW = 'polog/handlers/file/writer.py'
FD = 'polog/handlers/file/file_dependency_wrapper.py'
DL = 'polog/handlers/file/locks/double_lock.py'
ROT = 'polog/handlers/file/rotation/rotator.py'

prop('C01', 'No log is lost or duplicated, whatever threads and reconfiguration do',
     'Every log record that a logging call has accepted is handed to each of its handlers exactly once, even when several '
     'threads log at the same time and the number of workers or the queue limit is changed on the fly while they do. '
     'When a call that changes such a setting returns, the new engine configuration is in force and every record accepted '
     'before the call began has already been handled.',
     ['schedules', 'histories'],
     'all interleavings (within the stated deviation bound) of 1-3 logging threads with engine start-up, worker threads '
     'and 0-3 engine reloads between every pair of engine kinds (synchronous, 1-2 workers, bounded queue)',
     'the tests run one reload against one writer with whatever schedule the OS happens to produce; a lost record needs a '
     'writer to be paused between choosing the engine and enqueuing',
     [ENG, POOL, WORK, 'polog/core/engine/real_engines/multithreaded/engine.py', 'polog/core/engine/real_engines/fabric.py',
      'polog/core/stores/settings/actions/reload_engine.py', ITEM],
     [('writes are blocked while the engine is exchanged, the old engine is drained before it is dropped', ENG),
      ('the pool is drained, then its workers are flagged and joined', POOL)],
     [('current engine', 'the engine instance that accepts records', ENG), ('queue', 'accepted, not yet handled records', POOL)],
     ['calls received by registered handlers'])

prop('C02', 'Logging, reconfiguring and exiting never deadlock',
     'Every logging call, every settings change and the end of the program terminate, whatever threads do concurrently: '
     'first log against settings changes, logging from inside a handler while the engine is reloaded, several threads '
     'reconfiguring at once, program exit while other threads still log, and handlers that change settings. No combination of these leaves a thread waiting forever.',
     ['schedules', 'histories'],
     'all interleavings (within the bound) of the listed concurrent operations for every engine kind',
     'a deadlock needs one particular interleaving of lock acquisitions; the tests never run two of these operations concurrently',
     [ENG, SP, SS, POOL, WORK, 'polog/core/utils/time_limit.py', 'polog/core/utils/read_only_singleton.py'],
     [('lock hierarchy between settings locks and the engine lock', ENG)],
     [('engine lock / settings lock', 'serialise reloads and settings changes', ENG)],
     ['termination of the calls'])

prop('C03', 'A normal exit flushes every accepted record within the allowed delay',
     'When the program ends normally, every record accepted so far is handled before the process finishes, as long as the '
     'handlers need less than the configured maximal delay; records logged by other exit callbacks or threads during shutdown neither hang '
     'nor break the exit. If the handlers need longer, the exit is not delayed much beyond that maximum.',
     ['schedules', 'crash_points', 'configurations'],
     'all interleavings (within the bound) of exit with in-flight writes and worker progress, for every engine kind, '
     'handler duration and exit delay in a grid, and every order of exit callbacks',
     'the suite has one multi-process smoke test with fast handlers; it never has a writer or a slow handler racing with exit',
     [ENG, POOL, WORK, 'polog/core/utils/time_limit.py'],
     [('atexit callback that blocks new writes and stops the engine under a time limit', ENG)],
     [('queue', 'accepted, not yet handled records', POOL)],
     ['handler calls before the end of the exit callbacks', 'virtual time consumed by the exit callbacks'])

prop('C04', 'Synchronous logging is immediate, and single-worker delivery keeps order',
     'With the synchronous engine a logging call returns only after all its handlers have run, in the calling thread, and handlers are '
     'called in the order of registration of their names. With one worker, records are handled one at a time in the order in which they were accepted, '
     'so records of one thread never overtake each other, also across reconfiguration.',
     ['schedules', 'configurations'],
     'all interleavings (within the bound) of 2 logging threads and reloads, engine kinds synchronous and one worker',
     'order violations need a specific interleaving around a reload; tests look at counts only',
     [ENG, POOL, WORK, ITEM, 'polog/core/engine/real_engines/singlethreaded/engine.py', TREE],
     [('inline execution in the synchronous engine, FIFO queue otherwise', POOL)],
     [], ['order, thread and time of handler calls'])

prop('C05', 'A failing handler or extractor never affects the program or other handlers',
     'Whatever a handler or a field extractor raises, the exception does not reach the logging code, the program or the worker, every other '
     'handler still receives the same record, every other field is still extracted, and later records are handled as usual. '
     'This holds for every handler position, every engine and also when handlers are added or removed while records are being handled.',
     ['fault_sequences', 'schedules', 'configurations'],
     'every assignment of {ok, raise Exception, raise BaseException subclass} to up to 3 handlers and 3 extractors over record sequences, for each '
     'engine kind and each way of logging; all interleavings (within the bound) of handling with registry changes',
     'tests use one failing handler in isolation',
     [ITEM, 'polog/core/utils/exception_escaping.py', WORK, 'polog/data_structures/trees/named_tree/walker.py', TREE],
     [('each handler and extractor call is individually guarded', ITEM)],
     [], ['handler calls, exceptions seen by the caller, fields of the delivered record'])

prop('C06', 'A logging decorator is transparent',
     'Decorating a function, coroutine function, method, static or class method, or a whole class with the logger never changes what callers observe: '
     'the wrapped code runs exactly once per call with exactly the given arguments, its return value is returned as the same object, and an exception it raises '
     'reaches the caller as the same object, whatever the arguments, results, exceptions, levels and settings are and whether or not a record is written. '
     'The only exception is suppression that was explicitly requested.',
     ['inputs', 'programs', 'configurations'],
     'the product of callable kinds x decoration styles x outcomes x hostile arguments / results / exceptions x level and engine settings',
     'tests use friendly arguments and plain functions; hostile objects (str() raises, frozen exceptions, huge ints) and class members are not sampled',
     [FL, CL, 'polog/utils/json_vars.py', 'polog/core/utils/exception_to_dict.py', 'polog/core/utils/get_traceback.py', 'polog/core/utils/cut_traceback.py'],
     [('wrappers that log and then return / re-raise', FL)],
     [], ['value / exception identity seen by the caller, number of executions of the body'])

prop('C07', 'Exactly the records at or above the current level are written',
     'A record is written if and only if its level is at least the current global level at the moment it is written, where the level is the explicitly given one '
     '(number or registered name), else the default level for successes and the default error level for failures; a decorator reports an error with its '
     'error level if given, else with the highest of default, default error and its own level. '
     'Names and numbers are interchangeable everywhere and later redefinitions or settings changes take effect for the following records.',
     ['histories', 'inputs', 'configurations'],
     'all sequences up to a depth of settings changes, level (re)definitions and loggings in every style, compared with a reference model',
     'tests check single settings; the interplay of defaults, names, error levels and styles is not enumerated',
     [FL, HL, 'polog/core/utils/get_errors_level.py', 'polog/core/stores/levels.py', SS, ROUT, 'polog/loggers/partial.py', FIN],
     [('level resolution in each logger', FL), ('level registry', 'polog/core/stores/levels.py')],
     [], ['handler calls and the level field'])

prop('C08', 'One exception passing through several decorators is recorded exactly once',
     'With deduplication on, an exception that propagates through any number of logging decorators produces exactly one record, written by the innermost decorator whose level lets it be written; '
     'it is never recorded twice and never lost because an inner decorator filtered it or was silenced. With deduplication off every decorator that lets it through records it, and a different exception object is always a new event.',
     ['programs', 'configurations'],
     'all call chains up to depth 4 of decorators with all levels / unlog / catch-and-re-raise variants, sync and async, both settings',
     'tests use one two-level chain with equal levels',
     [FL, 'polog/unlog.py'], [('mark on the exception object', FL)], [], ['records delivered'])

prop('C09', 'Stacked decorators act as one, and the right one wins',
     'However logging decorators, class decorators and the logging ban are stacked on one callable, each call produces at most one automatic record: '
     'the outermost function decorator wins over inner ones, a decorator on a method wins over the class decorator, a decorated subclass replaces the logging of its parent without '
     'changing the parent, and a ban anywhere in the adjacent stack silences its automatic records. The order in which unrelated callables are decorated, and re-decorating, never changes this.',
     ['programs', 'histories'],
     'all decorator stacks up to depth 4 over {log(level=i), class decorator, unlog} on functions, methods, inherited methods and subclasses, sync and async',
     'tests use hand-picked stacks of height 2-3',
     [FL, CL, REG, 'polog/unlog.py', 'polog/data_structures/wrappers/weak_linked/dictionary.py'],
     [('registry of decorated functions and their originals', REG)], [], ['records per call and their levels'])

prop('C10', 'The logging ban covers exactly the dynamic extent of the banned call',
     'While a banned callable runs, nothing it does directly or through anything it calls, at any depth, is logged (automatic or, unless allowed with full=False, manual), until that call ends, normally or by an exception; '
     'before and after it, and in concurrently running threads and tasks, logging is unaffected. Inner banned calls returning do not end the outer ban.',
     ['programs', 'schedules', 'configurations'],
     'all call trees up to depth 4 over {plain, logged, banned, banned-but-manual-allowed} with exceptions at every node, sync and async; all interleavings of 2-3 asyncio tasks / threads within the bound',
     'tests cover single calls, not nesting, exceptions and task interleavings',
     ['polog/unlog.py', FL, HL], [('context variable set around the call', 'polog/unlog.py')], [], ['records delivered'])

prop('C11', 'Editing a record from inside affects exactly the enclosing logged call',
     'Fields set from inside a decorated call appear in the record of exactly the innermost enclosing logged call and in no other record, overriding automatic values; '
     'nested decorated calls, calls that are filtered out or banned, exceptions, and concurrently running threads or tasks neither lose nor inherit them.',
     ['programs', 'schedules'],
     'all call trees up to depth 3 with edits before / between / after nested calls, filtered and failing nodes; all interleavings of 2-3 tasks / threads within the bound',
     'tests use a single call',
     [MSG, FL], [('context variable read when the record is built', MSG)], [], ['fields of the delivered records'])

prop('C12', 'A with-block yields one faithful record and suppresses only what was asked',
     'Every with-block over the logger writes exactly one record when it ends, reporting success or the exception, with the fields given at entry overridden by those set inside; '
     'it lets exceptions through unless the block (or the default setting) asks to suppress that class, honouring the subclass setting. '
     'Blocks may be nested and may run concurrently in threads and asyncio tasks in any interleaving, with every form of entry, without mixing up their records.',
     ['programs', 'schedules', 'configurations'],
     'all nestings up to depth 3 of all block forms x exception outcomes x suppression arguments x settings; all interleavings of 2-3 tasks / threads within the bound',
     'tests check forms one at a time; interleaved tasks are not tested',
     [ROUT, FIN, 'polog/loggers/partial.py', 'polog/core/utils/exception_is_suppressed.py'], [('stack of open blocks in a context variable', ROUT)], [],
     ['records delivered, exceptions seen after the block'])

prop('C13', 'Settings are always valid and conflict-free; bad changes have no effect',
     'At every moment each setting has a value that satisfies its documented constraints and no two settings are in conflict; a change that is invalid, conflicting or refers to an unknown setting '
     'raises an error and leaves everything as it was, while an accepted change takes effect (several settings in one call are applied one after another, up to the first bad one). This holds for any sequence of changes and for concurrent changes from several threads.',
     ['histories', 'schedules', 'inputs'],
     'all sequences up to a depth of valid / invalid / conflicting changes over the interdependent settings, each setting with a value alphabet of type and range boundaries; all interleavings (within the bound) of 2-3 setting threads',
     'tests try a few values per setting, never a race between conflicting settings',
     [SS, SP, 'polog/config.py'], [('locked check-then-set with locks shared between interdependent settings', SP)], [],
     ['exceptions raised by the settings call, effects on logging behaviour'])

prop('C14', 'The handler registry behaves like a name tree, and namespaces follow it live',
     'Adding, looking up and deleting handlers by name, dotted path or object behaves like a map from paths to handlers: a free name can be taken, a taken name or object cannot, a deleted one is gone and can be registered again, and all others are untouched. '
     'Every record goes to exactly the handlers visible in its namespace at that moment: all registered ones by default, or for a function decorator with an explicit list the given objects plus the current contents of the named branches, each once.',
     ['histories', 'schedules'],
     'all operation sequences up to a depth over a small path alphabet with decorators created at every point, compared with a reference model; all interleavings (within the bound) of registry changes with logging',
     'tests check single operations on fixed trees',
     ['polog/config.py', TREE, 'polog/data_structures/trees/named_tree/projector.py', 'polog/data_structures/trees/named_tree/walker.py', FL],
     [('named tree and projections that share its nodes', TREE)], [], ['handlers that receive a record, errors raised'])

prop('C15', 'Extracted fields appear exactly where configured and follow the precedence rules',
     'Globally registered fields, in-place or engine-side, appear in every record; a decorator with its own field set uses that set instead of, or with an ellipsis in addition to and taking precedence over, the global one; in-place fields are computed in the logging thread and engine fields in the engine. '
     'A field already present in the record is replaced only if intersection is enabled, and deleting a field stops it for the following records; arguments passed by the user are never modified.',
     ['configurations', 'histories'],
     'the full matrix of global / local / ellipsis position and container type x in-place / engine x intersection x name collisions x logging style x engine kind, with add / delete sequences',
     'tests cover a few cells of the matrix',
     [ITEM, FL, HL, 'polog/data_structures/wrappers/fields_container/container.py', 'polog/config.py', 'polog/field.py'],
     [('fields container and two extraction stages', ITEM)], [], ['fields of the delivered record'])

prop('C16', 'Concurrent file writing never loses, tears, mixes or repeats a line',
     'When any number of threads or workers log through one file handler, with or without rotation, every record appears as exactly one complete line in the union of the log file and its archives, '
     'and no line is interleaved with another. The same holds when several handlers or processes write to the same path with the file lock enabled.',
     ['schedules', 'histories'],
     'all interleavings (within the bound) of 2-3 writing threads with rotations, one or two handlers on the same file, thread / file / both locks',
     'the suite uses sequential writes plus real-time stress, which does not reach the window between deciding to rotate, moving and reopening',
     [FW, FD, DL, ROT, 'polog/handlers/file/locks/file_lock.py', 'polog/handlers/file/locks/thread_lock.py'],
     [('double lock around write, flush and move + reopen', FD)], [], ['contents of log file and archives'])

prop('C17', 'The file lock gives mutual exclusion between threads and between processes',
     'At any moment at most one of all threads of all processes (also forked ones) that use a log file with the combined lock is inside a write, flush or rotation of that file, and the lock is always released afterwards, also when the operation fails; a thread lock alone excludes threads of one handler. '
     'Nobody waits forever for it.',
     ['schedules', 'fault_sequences'],
     'all interleavings (within the bound) of 2 threads in each of 2 holders, with failures injected in every guarded operation, for each lock type',
     'a violation needs a thread to be paused between releasing the two locks',
     [DL, 'polog/handlers/file/locks/file_lock.py', 'polog/handlers/file/locks/thread_lock.py', FD],
     [('thread lock outside, file lock inside', DL)], [], ['overlap of guarded operations'])

prop('C18', 'Rotation happens exactly when the rule says so and never destroys data',
     'A file is rotated before a write if and only if its size has reached the configured limit, in every unit and spelling the rule language allows; the archived file has exactly the previous content, earlier archives are never overwritten or altered, '
     'and afterwards writing continues in a fresh file. If a step of a rotation fails, the record is still written and nothing is lost.',
     ['histories', 'inputs', 'fault_sequences'],
     'all rule texts of the language up to a length, all write-size sequences up to a depth around the threshold, several rotations within one clock tick, and a fault at every file operation of a rotation',
     'tests check single rotations; two rotations in one clock tick and failing file operations are not covered',
     [ROT, FD, FW, 'polog/handlers/file/rotation/rules/rules/file_size_rule.py', 'polog/handlers/file/rotation/rules/rules/tokenization/tokens/size_token.py'],
     [('size rule, archive naming, move + reopen', ROT)], [], ['contents of log file and archives, errors for malformed rules'])

prop('C19', 'A handler writes a record or passes it to its fallback, exactly one of the two',
     'For every record a handler built on the handler base either writes it or, if the error-only mode or the filter rejects it or writing fails, calls the fallback exactly once with that record; never both, never neither when a fallback is given. '
     'The filter decides only by returning a real boolean, and wrong constructor arguments are rejected at construction.',
     ['inputs', 'fault_sequences', 'configurations'],
     'the matrix of error-only x filter result x content failure x write failure x fallback kind x record success, for file, mail, memory and custom handlers, over record sequences',
     'tests cover a few cells',
     ['polog/handlers/abstract/base.py', FW, 'polog/handlers/smtp/sender.py'], [('guarded call with fallback', 'polog/handlers/abstract/base.py')], [],
     ['writes and fallback calls per record'])

prop('C20', 'Standard-library logging is mirrored faithfully and controllably',
     'While the integration is on, each record of the standard logger that reaches it yields exactly one record here with the same message, level, origin, exception and success derived from the level, and the standard logger itself emits it if and only if it is not switched off; '
     'while it is off nothing is mirrored. No standard logging call ever fails because of the integration, whatever its arguments.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of toggling both settings with loggings; the matrix of record kinds (arguments, exception info forms, levels, missing caller data)',
     'tests log a handful of ordinary records',
     ['polog/core/stores/settings/actions/integration_with_logging.py', SS], [('filter on the root logger', 'polog/core/stores/settings/actions/integration_with_logging.py')], [],
     ['records delivered, records emitted by the standard logger, exceptions'])

prop('C21', 'The smart assert raises in debug mode and logs otherwise',
     'For a true expression nothing happens; for a false one, in debug mode an assertion error with the given message is raised, and otherwise one error record with that message is written and nothing is raised. '
     'In debug mode a record is additionally written, once, only if the policy asks for it.',
     ['inputs', 'configurations'],
     'the product of expression values (including hostile ones) x message kinds x debug mode x policy x silent mode',
     'tests never check that nothing else is written or that exactly one record is',
     ['polog/loggers/handle/smart_assert.py', SS], [('policy function and debug flag', 'polog/loggers/handle/smart_assert.py')], [], ['exceptions and records'])

prop('C22', 'Logger misuse is harmless in silent mode and reported in strict mode',
     'In silent mode no combination of wrong, unknown, duplicate or surplus arguments to the manual loggers and the message editor raises, and a record with the valid remaining fields is still written; '
     'in strict mode the same misuse raises (through the interpreter\'s hook for unraisable exceptions in the case of the universal log() function) and no record is written or edited; correct use behaves the same in both modes. Where a field is given twice, either value may be kept. The universal function rejects a first positional argument it cannot interpret in both modes.',
     ['inputs', 'configurations'],
     'all argument combinations up to size 3 over an alphabet of valid / invalid values for every known key and alias, for each manual logger and mode',
     'tests try single wrong arguments',
     [AB, HL, MSG, 'polog/core/utils/not_none_to_dict.py'], [('validation with conditional raise', AB)], [], ['exceptions and records'])

prop('C23', 'A record is immutable and identical for every handler',
     'Every handler of an event receives the same record with the same content: no handler can set or delete fields through the mapping interface of the record, records are ordered and compared by their time, and all ways of reading a record agree with each other. '
     'What one handler does, including failing, never changes what another one sees.',
     ['inputs', 'programs'],
     'all sequences up to a depth of read / write / compare operations over records with present, missing and custom fields',
     'tests check operations on single records',
     [ITEM], [('read-only mapping interface', ITEM)], [], ['results of the operations, content seen by the next handler'])

prop('C24', 'The text line of a record is complete and faithful',
     'The standard text format shows every field of the record exactly once (the exception message with its type), in the documented order, with time, level (by name if it has one), success, message, place, duration and exception shown truthfully, then all other fields; a missing field is shown as documented and no value can make formatting fail. '
     'Durations are shown without changing their value (to eight places), and a level is never shown under a name that belongs to another level.',
     ['inputs'],
     'the product of present / absent / unusual values for every formatted field, with levels named and unnamed, compared with a reference formatter and an inverse parser',
     'tests check single extractors on friendly values',
     ['polog/handlers/file/base_formatter.py', 'polog/handlers/file/base_formatter_fields_extractors.py'], [('per-field extractors', 'polog/handlers/file/base_formatter.py')], [],
     ['the written line'])

prop('C25', 'Mail delivery is per record, even with concurrent workers and failing servers',
     'Each record sent by the mail handler is delivered in exactly one message over its own logged-in connection which is closed afterwards, whatever other workers send at the same time; if connecting, logging in or sending fails, the connection is closed, the fallback is called once for that record, and other records are unaffected. '
     'The password never appears in any message or representation.',
     ['schedules', 'fault_sequences'],
     'all interleavings (within the bound) of 2-3 concurrent sends with a fault at every step of the mail session',
     'tests use a stub sender without concurrency or faults',
     ['polog/handlers/smtp/smtp_dependency_wrapper.py', 'polog/handlers/smtp/sender.py'], [('one connection per message', 'polog/handlers/smtp/smtp_dependency_wrapper.py')], [],
     ['sessions seen by a stand-in mail server, fallback calls'])

prop('C26', 'An automatic record tells the truth about the call',
     'The record of a decorated call states the real function, module and class, start time and duration, the arguments and result or the exception type, message and traceback of exactly that call, success iff no exception left the wrapped code, and the configured service name; records of with-blocks and of exceptions passed to the manual logger are just as truthful about time, duration, outcome and traceback. '
     'Concurrent or recursive calls never mix their data.',
     ['programs', 'schedules', 'inputs'],
     'all recursive call trees up to depth 3 and all interleavings (within the bound) of 2-3 concurrent calls of the same decorated callable in threads and tasks; argument / result kinds from an alphabet',
     'tests check sequential calls',
     [FL, 'polog/utils/json_vars.py', 'polog/core/utils/get_traceback.py', 'polog/core/utils/exception_to_dict.py'], [('per-call data dictionary', FL)], [], ['fields of the delivered records'])

prop('C27', 'One call of the universal function has exactly one effect, exactly once',
     'What log(...) returns is used in exactly one way. Applied to a function or class it decorates it and writes nothing by itself; entered as a block it writes exactly one record, when the block ends; '
     'otherwise exactly one manual record with the given fields is written at the moment the result is released, in whatever thread that happens, wherever in an expression the call stands, or when the program ends if it is still held. '
     'It writes nothing before that, and an object that has been used cannot be used again.',
     ['histories', 'programs', 'schedules'],
     'all sequences up to a depth of uses (decorate a function, coroutine function or class, enter, fail, edit, nest, alias, put in a cycle, misuse) of one object x ways of making it x ways of releasing it x engine kinds; '
     'all positions of the call in an expression from an alphabet; all interleavings (within the bound) of two threads making, using and releasing such objects',
     'tests use each form once; second uses, shared references, cycles and release in another thread are not tested',
     [ROUT, FIN, 'polog/loggers/partial.py', HL], [('finalizer that writes the record unless it was detached by a use', FIN)], [('used / entered', 'how the object has been used', FIN)],
     ['records delivered and when, errors raised'])

prop('C28', 'A class decorator logs exactly the chosen methods, like the function decorator',
     'Decorating a class makes calls of exactly the chosen methods logged: all of them except dunder methods by default, or those named in methods=; plain, static, class and coroutine methods and inherited ones alike, while properties, nested classes, '
     'data, callable attributes, the parent class and everything not chosen stay the same. All arguments of the decorator (message, level, error level, handlers, extra fields, suppression) act on each method as they would on a function, and the class object stays the same.',
     ['programs', 'configurations'],
     'a class with every kind of member x decorator forms x all choices of methods up to a size, decorated once or twice; all combinations of up to 2 (3) decorator arguments x outcomes x settings, compared with the function decorator',
     'tests decorate small classes with plain methods and no arguments besides message and level',
     [CL, 'polog/core/utils/class_methods.py', FL], [('walk over the members of the class', CL)], [], ['records per call, members of the class'])

prop('C29', 'What can never work is refused at registration, without effect',
     'A handler, field extractor, converter, filter, fallback, formatter or mail assembler that cannot be called with one record, a field or level with a name that is reserved or not an identifier, a negative or non-integer level and a wrong argument of a decorator are refused with an exception at the moment they are given, in silent mode too; '
     'what is refused is not registered and changes nothing and logging goes on as before. Whatever is accepted is really used.',
     ['inputs', 'histories', 'configurations'],
     'an alphabet of 40 callable and non-callable shapes x 17 places where callables are accepted x pairs of attempts; names and values alphabets for fields and levels; wrong values for every argument of the decorator x kinds of target',
     'tests try a few wrong values per place',
     ['polog/core/utils/signature_matcher.py', 'polog/core/utils/name_manager.py', 'polog/config.py', 'polog/field.py', FL, 'polog/handlers/abstract/base.py'], [('signature and name checks', 'polog/core/utils/signature_matcher.py')], [],
     ['exceptions, registries, records'])

prop('C30', 'A logging decorator leaves no trace in tracebacks',
     'With traceback cutting on (the default) an exception that passes through logging decorators reaches the caller with exactly the traceback it would have without them, and so do its cause and context, for functions, coroutine functions and methods, at any nesting and recursion, for errors in the arguments, re-raised and chained exceptions, and whether or not a record is written. '
     'With cutting off the only difference are additional frames of the logger itself.',
     ['programs', 'inputs', 'schedules'],
     'all call chains up to depth 3 over callable kinds x decorations x ways of passing, re-raising and chaining x kinds of exceptions, recursion to depth 40, both settings, compared with the same program without decorators; all interleavings (within the bound) of 2-3 threads',
     'tests look at one function and one exception',
     ['polog/core/utils/cut_traceback.py', FL], [('the frame of the wrapper is cut off before the exception is re-raised', 'polog/core/utils/cut_traceback.py')], [], ['the traceback seen by the caller'])

prop('C31', 'The memory handler keeps exactly what was delivered to it',
     'There is one memory handler in a program, whichever thread makes it first; it keeps every record delivered to it since it was last cleaned, complete and in the order of delivery, with the newest one as the last, and cleaning forgets exactly what was there. '
     'This holds for any sequence of records and cleanings, in both kinds of engine, and when several threads make it, write to it and clean it at the same time.',
     ['histories', 'schedules'],
     'all sequences of up to 4 (5) operations over kinds of records, direct calls, cleaning and making it again, in both engines; all interleavings (within the bound) of 2-3 threads that make, write and clean',
     'tests write one record from one thread',
     ['polog/handlers/memory/saver.py', 'polog/core/utils/read_only_singleton.py'], [('the instance is made once under a lock; writing and cleaning exclude each other', 'polog/handlers/memory/saver.py')], [], ['the lists all and last of the handler'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
