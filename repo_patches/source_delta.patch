From f8e363a64f61daa13f512f33da3dd7886f6ae591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 01/41] fix: never lose or deadlock a record that is written
 while the engine is being reloaded

A writer that had already fetched the old engine could put its record into a queue
whose workers were gone; a handler that logs from a worker deadlocked with the reload.
---
 polog/core/engine/engine.py                   | 25 +++++++--
 .../engine/real_engines/multithreaded/pool.py | 52 ++++++++++++++++---
 .../real_engines/multithreaded/worker.py      | 10 +++-
 polog/errors.py                               |  6 +++
 4 files changed, 81 insertions(+), 12 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 7b45c6c..10d7f10 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -5,6 +5,9 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
 from polog.core.utils.time_limit import time_limit
+from polog.core.engine.real_engines.singlethreaded.engine import SingleThreadedRealEngine
+from polog.core.engine.real_engines.multithreaded.worker import is_worker_thread
+from polog.errors import StoppedEngineError
 
 
 class Engine(ReadOnlySingleton):
@@ -66,11 +69,27 @@ class Engine(ReadOnlySingleton):
         """
         Данный метод фактически вызывается каждый раз при вызове метода self.write().
         """
-        self.real_engine.write(log)
+        while True:
+            real_engine = self.real_engine
+            try:
+                real_engine.write(log)
+                break
+            except StoppedEngineError:
+                # Движок остановлен. Дожидаемся, пока его заменят, и пишем в новый. Если замены не произошло (программа завершается или новый движок не загрузился), пишем синхронно.
+                with self.lock:
+                    if self.real_engine is real_engine:
+                        self.real_engine = SingleThreadedRealEngine(self.settings)
 
     def _blocked_write(self, log):
-        with self.lock:
-            self._new_write(log)
+        """
+        Запись лога, пока движок перезагружается.
+
+        Ожидать окончания перезагрузки должны все, кроме воркеров: перезагрузка сама ждет, пока они завершатся. Логи из обработчиков попадают в ту же очередь, которую воркер разбирает.
+        """
+        if not is_worker_thread():
+            with self.lock:
+                pass
+        self._new_write(log)
 
     def reload(self):
         """
diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index 4c31b7a..a314f73 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -1,6 +1,8 @@
 import time
 from queue import Queue
+from threading import Lock, current_thread
 
+from polog.errors import StoppedEngineError
 from polog.core.engine.real_engines.multithreaded.worker import Worker
 
 
@@ -15,25 +17,59 @@ class ThreadPool:
     def __init__(self, settings):
         self.settings = settings
         self.queue = Queue(maxsize=self.settings.force_get('max_queue_size'))
+        self.lock = Lock()
+        self.closed = False
+        self.puts_in_progress = 0
         self.workers = self.create_workers()
 
     def put(self, log_item):
         """
         Помещение лога в очередь.
+
+        Если группа потоков уже останавливается, лог не принимается и поднимается StoppedEngineError. Счетчик незавершенных вызовов нужен, чтобы остановка дождалась всех, кто успел начать запись раньше нее.
+        Исключение - логи, записанные изнутри обработчиков, то есть из потоков самих воркеров. Воркер не завершится, пока не разберет очередь, поэтому такие логи принимаются всегда. По той же причине на них не распространяется лимит размера очереди: воркер не может ждать сам себя.
+        """
+        if self.is_own_thread():
+            self.put_without_waiting(log_item)
+            return
+        with self.lock:
+            if self.closed:
+                raise StoppedEngineError('The engine has already been stopped.')
+            self.puts_in_progress += 1
+        try:
+            self.queue.put(log_item)
+        finally:
+            with self.lock:
+                self.puts_in_progress -= 1
+
+    def put_without_waiting(self, log_item):
+        """
+        Помещение лога в очередь в обход лимита на ее размер.
         """
-        self.queue.put(log_item)
+        with self.queue.not_empty:
+            self.queue._put(log_item)
+            self.queue.unfinished_tasks += 1
+            self.queue.not_empty.notify()
+
+    def is_own_thread(self):
+        """
+        Проверка, что текущий поток принадлежит одному из воркеров группы.
+        """
+        thread = current_thread()
+        return any(worker.thread is thread for worker in self.workers)
 
     def stop(self):
         """
         Остановка воркеров.
 
-        Подразумевается, что объект, останавливающий группу потоков, проконтролирует, что в процессе остановки очередь пополняться не будет.
-
         Этапы остановки:
-        1. Дождаться опустошения очереди.
-        2. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
-        3. Заджойнить потоки воркеров.
+        1. Запретить принимать новые логи.
+        2. Дождаться завершения уже начатых записей в очередь и ее опустошения.
+        3. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
+        4. Заджойнить потоки воркеров.
         """
+        with self.lock:
+            self.closed = True
         self.wait_empty_queue()
         for worker in self.workers:
             worker.set_stop_flag()
@@ -42,7 +78,7 @@ class ThreadPool:
 
     def wait_empty_queue(self):
         """
-        Опрашиваем очередь с некоторой периодичностью, пока она не опустеет. Когда очередь опустела, выходим.
+        Опрашиваем очередь с некоторой периодичностью, пока она не опустеет. Когда очередь опустела и никто в нее больше не пишет, выходим.
 
         Периодичность опроса определяется двумя пунктами настроек - 'time_quant' и 'delay_on_exit_loop_iteration_in_quants'.
         'time_quant' - временной квант, константа, определяющая минимальное время выполнения любой операции (в секундах).
@@ -50,7 +86,7 @@ class ThreadPool:
         """
         delay = self.settings['time_quant'] * self.settings['delay_on_exit_loop_iteration_in_quants']
         while True:
-            if self.queue.empty():
+            if not self.puts_in_progress and self.queue.empty():
                 break
             time.sleep(delay)
 
diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index ffbc944..a18c385 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -1,5 +1,12 @@
 from queue import Empty
-from threading import Thread
+from threading import Thread, current_thread
+
+
+def is_worker_thread():
+    """
+    Проверка, что текущий поток - это поток одного из воркеров.
+    """
+    return getattr(current_thread(), 'is_polog_worker', False)
 
 
 class Worker:
@@ -43,6 +50,7 @@ class Worker:
         """
         thread = Thread(target=self.run)
         thread.daemon = True
+        thread.is_polog_worker = True
         thread.start()
         return thread
 
diff --git a/polog/errors.py b/polog/errors.py
index aca3953..57816b5 100644
--- a/polog/errors.py
+++ b/polog/errors.py
@@ -40,3 +40,9 @@ class HandlerNotFoundError(ValueError):
     Поднимается при попытке получить обработчик по ключу, который ранее не был зарегистрирован.
     """
     pass
+
+class StoppedEngineError(Exception):
+    """
+    Внутреннее исключение Polog, поднимается при попытке записать лог в уже остановленный движок. Наружу оно не выходит.
+    """
+    pass
-- 
2.43.0


From 9d123e68b8d5e735b7009e5ee5656f61090b58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 02/41] fix: do not deadlock when the first log races with a
 change of the engine settings

---
 polog/core/engine/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 10d7f10..b0da450 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -33,14 +33,18 @@ class Engine(ReadOnlySingleton):
         """
         Первая стадия инициализации движка.
         Осуществляется при запуске программы.
+
+        Если инициализация уже была, блокировку брать нельзя: при первой записи лога ее держит поток, ожидающий блокировку настроек, а конструктор вызывается в том числе из-под блокировки настроек.
         """
+        if hasattr(self, 'inited'):
+            return
         with self.lock:
             if not hasattr(self, 'inited'):
                 self.settings = SettingsStore()
                 self.blocked = False
-                self.inited = True
                 self.serial_number = 0
                 self.active = False
+                self.inited = True
 
     def __second_init__(self):
         """
-- 
2.43.0


From a561a312ce0a827ededd28b23d0d729112f43504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 03/41] fix: keep the exit within its time limit and never
 leave the engine locked after it

The exit callback left the engine lock held, so any later log hung the exit; joining a busy worker
could not be interrupted by the time limit.
---
 polog/core/engine/engine.py                    | 18 +++++++++++++-----
 .../real_engines/multithreaded/worker.py       |  4 +++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index b0da450..a872806 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -104,9 +104,11 @@ class Engine(ReadOnlySingleton):
         """
         if self.settings['started']:
             self.block()
-            self.stop()
-            self.load()
-            self.unlock()
+            try:
+                self.stop()
+                self.load()
+            finally:
+                self.unlock()
 
     @exception_escaping
     def load(self):
@@ -130,7 +132,9 @@ class Engine(ReadOnlySingleton):
         Блокировка обертки движка, чтобы, пока происходит перезагрузка, нельзя было записывать логи.
         """
         if self.settings['started']:
-            self.lock.acquire()
+            # Ожидание разбито на короткие отрезки, чтобы в основном потоке его мог прервать time_limit при завершении программы.
+            while not self.lock.acquire(timeout=0.1):
+                pass
             self.write = self._blocked_write
 
     def unlock(self):
@@ -159,4 +163,8 @@ class Engine(ReadOnlySingleton):
         # Учет данной функции при расчете покрытия тестами отключен, поскольку для его проверки используется отдельный процесс, который, к сожалению, не учитывается сборщиком статистики.
         def checker(): # pragma: no cover
             self.block()
-            self.stop()
+            try:
+                self.stop()
+            finally:
+                # Логи, записанные уже после остановки (например, другими обработчиками выхода), не должны блокироваться навсегда.
+                self.unlock()
diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index a18c385..b5924c7 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -70,7 +70,9 @@ class Worker:
 
         Это второй этап остановки воркера (см. также self.set_stop_flag()). Ожидается, что к моменту вызова данного метода флаг остановки уже установлен и цикл обработки логов прерван, что позволяет беспрепятственно присоединить поток воркера.
         """
-        self.thread.join()
+        # Ожидание разбито на короткие отрезки, чтобы в основном потоке его мог прервать time_limit при завершении программы.
+        while self.thread.is_alive():
+            self.thread.join(timeout=0.1)
 
     def do_anything(self, log_item):
         """
-- 
2.43.0


From 6ec05ea2b9420dc4bc281feecef036f0ae439939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 04/41] fix: extract the global engine fields for manual logs
 and with-blocks too

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 82fd68f..31cc540 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,7 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
-from polog.core.stores.fields import in_place_fields
+from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
 
@@ -66,6 +66,7 @@ class BaseLogger(AbstractHandleLogger):
                 log_item = LogItem()
                 log_item.set_data(fields)
                 log_item.set_handlers(global_handlers)
+                log_item.set_extra_fields(engine_fields)
                 log_item.extract_extra_fields_from(in_place_fields)
                 self._engine.write(log_item)
 
-- 
2.43.0


From eb0f2caadeebc7ff533ad5fecfb6b3733419a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:20 +0000
Subject: [PATCH 05/41] fix: iterate over snapshots of handlers and fields, so
 a concurrent change cannot cut a record short

---
 polog/core/log_item.py                                    | 2 +-
 polog/data_structures/trees/named_tree/walker.py          | 4 ++--
 .../wrappers/fields_container/container.py                | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 81f21f2..4737cf7 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -185,7 +185,7 @@ class LogItem:
         fields - словарь, в котором ключи - строки с названиями полей, значения - поля.
         """
         data = self.fields
-        for name, field in fields.items():
+        for name, field in tuple(fields.items()):
             if name not in data or self._fields_intersection:
                 try:
                     value = field.get_data(self)
diff --git a/polog/data_structures/trees/named_tree/walker.py b/polog/data_structures/trees/named_tree/walker.py
index 1836329..00fa566 100644
--- a/polog/data_structures/trees/named_tree/walker.py
+++ b/polog/data_structures/trees/named_tree/walker.py
@@ -16,7 +16,7 @@ class TreeWalker:
             next_layer = []
             for node in layer:
                 yield node
-                for child in node.childs.values():
+                for child in tuple(node.childs.values()):
                     next_layer.append(child)
             layer = next_layer
 
@@ -45,5 +45,5 @@ class TreeWalker:
         Поскольку обход реализован через рекурсию, его глубина ограничена и при ее превышении поднимется RecursionError.
         """
         yield node
-        for child in node.childs.values():
+        for child in tuple(node.childs.values()):
             yield from self._recursive_dfs(child)
diff --git a/polog/data_structures/wrappers/fields_container/container.py b/polog/data_structures/wrappers/fields_container/container.py
index d1564a8..b5bcb2a 100644
--- a/polog/data_structures/wrappers/fields_container/container.py
+++ b/polog/data_structures/wrappers/fields_container/container.py
@@ -20,10 +20,10 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, они не дублируются.
         """
-        for key in self.fields:
+        for key in tuple(self.fields):
             yield key
 
-        for key in self.defaults:
+        for key in tuple(self.defaults):
             if key not in self.fields:
                 yield key
 
@@ -33,9 +33,9 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, предпочтение отдается значению из первого словаря.
         """
-        for key, value in self.fields.items():
+        for key, value in tuple(self.fields.items()):
             yield key, value
 
-        for key, value in self.defaults.items():
+        for key, value in tuple(self.defaults.items()):
             if key not in self.fields:
                 yield key, value
-- 
2.43.0


From 4b3f1a31e789d02b186a3dc4585ac72dc7f4a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 06/41] fix: the end of an inner unlogged call does not end the
 ban of the outer one

---
 polog/unlog.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 2fbb080..24ae4a7 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -16,6 +16,7 @@ context = ContextVar('unlog')
 @dataclass
 class UnlogOrder:
     full: Optional[bool]
+    outer: Optional['UnlogOrder'] = None
 
 class UnlogDecorator:
     def __init__(self):
@@ -79,32 +80,36 @@ class UnlogDecorator:
     def get_unlog_status(self):
         """
         В этом методе решается, позволительно ли в данный момент логирование.
+
+        Запреты могут быть вложены друг в друга, полный запрет действует на весь вложенный в него код.
         """
         status = context.get(None)
 
-        if status is None:
-            return False
-
-        if status.full is None:
-            return self.store['full_unlog']
+        while status is not None:
+            full = self.store['full_unlog'] if status.full is None else status.full
+            if full:
+                return True
+            status = status.outer
 
-        return status.full
+        return False
 
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
-            context.set(UnlogOrder(full=full))
+            outer = context.get(None)
+            context.set(UnlogOrder(full=full, outer=outer))
             try:
                 return function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(outer)
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
-            context.set(UnlogOrder(full=full))
+            outer = context.get(None)
+            context.set(UnlogOrder(full=full, outer=outer))
             try:
                 return await function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(outer)
         if iscoroutinefunction(function):
             return async_wrapper
         return wrapper
-- 
2.43.0


From a0879babb9c48508be7adf3a6bdeccaff8c1482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 07/41] fix: an exception filtered out by one decorator is
 still recorded by the next one

---
 polog/loggers/auto/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 6e2f1c4..30e1d82 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -172,9 +172,9 @@ class FunctionLogger:
         """
         if not unlog.get_unlog_status():
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                exc.checked_by_polog = True
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
+                    exc.checked_by_polog = True
                     exception_to_dict(args_dict, exc)
                     args_dict['success'] = False
                     args_dict['traceback'] = get_traceback(cut_string_at_begin=1)
-- 
2.43.0


From a5544c6b4982ad8d0831d03d7416e4b797609318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 08/41] fix: fields set by message() stay with the call they
 were set in

---
 polog/loggers/auto/function_logger.py | 64 +++++++++++++++------------
 polog/loggers/handle/message.py       | 10 ++++-
 2 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 30e1d82..b94f698 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -64,45 +64,53 @@ class FunctionLogger:
                 """
                 Обертка для корутинных функций, вызов обернутой функции происходит через await.
                 """
+                outer_context = _message._get_context()
                 _message._clean_context()
-                args_dict = self.get_base_args_dict(func, message)
                 try:
-                    start = time.time()
-                    args_dict['time'] = datetime.datetime.fromtimestamp(start)
-                    result = await func(*args, **kwargs)
-                except Exception as e:
+                    args_dict = self.get_base_args_dict(func, message)
+                    try:
+                        start = time.time()
+                        args_dict['time'] = datetime.datetime.fromtimestamp(start)
+                        result = await func(*args, **kwargs)
+                    except Exception as e:
+                        finish = time.time()
+                        self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                        if not suppress_all:
+                            if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
+                                cut_traceback(self.settings)
+                                raise
+                        return None
                     finish = time.time()
-                    self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                    if not suppress_all:
-                        if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
-                            cut_traceback(self.settings)
-                            raise
-                    return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._set_context(outer_context)
             @wraps(func)
             def wrapper(*args, **kwargs):
                 """
                 Обертка для обычных функций.
                 """
+                outer_context = _message._get_context()
                 _message._clean_context()
-                args_dict = self.get_base_args_dict(func, message)
                 try:
-                    start = time.time()
-                    args_dict['time'] = datetime.datetime.fromtimestamp(start)
-                    result = func(*args, **kwargs)
-                except Exception as e:
+                    args_dict = self.get_base_args_dict(func, message)
+                    try:
+                        start = time.time()
+                        args_dict['time'] = datetime.datetime.fromtimestamp(start)
+                        result = func(*args, **kwargs)
+                    except Exception as e:
+                        finish = time.time()
+                        self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                        if not suppress_all:
+                            if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
+                                cut_traceback(self.settings)
+                                raise
+                        return None
                     finish = time.time()
-                    self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                    if not suppress_all:
-                        if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
-                            cut_traceback(self.settings)
-                            raise
-                    return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._set_context(outer_context)
             if inspect.iscoroutinefunction(func):
                 result = async_wrapper
             else:
diff --git a/polog/loggers/handle/message.py b/polog/loggers/handle/message.py
index 4fdfeb7..297a9e9 100644
--- a/polog/loggers/handle/message.py
+++ b/polog/loggers/handle/message.py
@@ -18,11 +18,12 @@ class Message(AbstractHandleLogger):
     def _push(self, fields):
         """
         Сохраняем полученные поля в контекстную переменную.
+        Поля, установленные предыдущими вызовами внутри той же функции, сохраняются, при совпадении имен побеждают новые.
 
         fields - словарь с данными, извлеченными из переданных пользователем аргументов.
         """
         if fields:
-            context.set(fields)
+            self._set_context({**(self._get_context() or {}), **fields})
 
     def _specific_processing(self, fields):
         """
@@ -54,6 +55,13 @@ class Message(AbstractHandleLogger):
         """
         context.set(None)
 
+    def _set_context(self, fields):
+        """
+        Возвращаем контекстной переменной ранее сохраненное содержимое.
+        Необходимо, чтобы вызов одной задекорированной функции из другой не влиял на лог последней.
+        """
+        context.set(fields)
+
     def _get_context(self):
         """
         Возвращаем содержимое контекстной переменной.
-- 
2.43.0


From d6d21123b40123298abdf8807c67c6a838808bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 09/41] fix: with-blocks of concurrent tasks do not share one
 stack

---
 polog/loggers/router.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 627f5a0..1eda569 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -131,11 +131,8 @@ class Router:
         """
         finalizer = LoggerRouteFinalizer()
 
-        context_stack = contexts.get(None)
-        if context_stack is None:
-            contexts.set([finalizer])
-        else:
-            context_stack.append(finalizer)
+        # Стек неизменяемый, поскольку ссылка на него копируется в контексты других корутин.
+        contexts.set((*contexts.get(()), finalizer))
 
         return finalizer.__enter__()
 
@@ -143,15 +140,13 @@ class Router:
         """
         Выход из контекста.
         """
-        finalizers = contexts.get(None)
+        finalizers = contexts.get(())
 
-        if finalizers is None:
+        if not finalizers:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers.pop()
-
-        if not finalizers:
-            contexts.set(None)
+        finalizer = finalizers[-1]
+        contexts.set(finalizers[:-1])
 
         result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
         return result
-- 
2.43.0


From 661aa8c1386f44294c2aca61e8d716d550fe7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 10/41] fix: an explicit level argument wins over the level in
 the attribute name, as documented

---
 polog/loggers/partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index cf73844..2bb1cf1 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -38,9 +38,9 @@ class RouterPartial:
     def __call__(self, *args, **kwargs):
         """
         Отложенный вызов функции, аналог functools.partial.
+        Аргументы, переданные при вызове, имеют приоритет над сохраненными ранее.
         """
-        kwargs.update(self.kwargs)
-        return self.item(*args, **kwargs)
+        return self.item(*args, **{**self.kwargs, **kwargs})
 
     def __enter__(self):
         """
-- 
2.43.0


From fed5b28199bc775017fc14149596ea3f8251e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 11/41] fix: decorate static methods, class methods and
 inherited methods without breaking or affecting others

---
 polog/core/stores/registering_functions.py | 26 +++++++---------------
 polog/core/utils/class_methods.py          | 25 +++++++++++++++++++++
 polog/loggers/auto/class_logger.py         | 18 ++++++++++-----
 polog/unlog.py                             | 22 +++++++++---------
 4 files changed, 55 insertions(+), 36 deletions(-)
 create mode 100644 polog/core/utils/class_methods.py

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 6f26981..593b21b 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -13,7 +13,7 @@ class RegisteringFunctions:
     unlogged_functions = LockedWeakKeyValueDictionary()
     # Оригиналы функций, которые запрещено декорировать.
     forbidden_to_decorate = weakref.WeakSet()
-    # Оригиналы функций, задекорированных через декоратор класса.
+    # Обертки функций, задекорированных через декоратор класса.
     decorated_methods = weakref.WeakSet()
 
     def add(self, decorated_function, original_function, is_method=False):
@@ -22,7 +22,7 @@ class RegisteringFunctions:
         """
         self.all_decorated_functions[decorated_function] = original_function
         if is_method:
-            self.decorated_methods.add(original_function)
+            self.decorated_methods.add(decorated_function)
 
     def add_unlogged(self, unlogged_function, original_function):
         """
@@ -37,10 +37,8 @@ class RegisteringFunctions:
         Удаляем функцию из реестра задекорированных.
         """
         if self.is_decorator(func):
-            original_function = self.get_original(func)
             self.all_decorated_functions.pop(func, None)
-            if original_function in self.decorated_methods:
-                self.decorated_methods.discard(original_function)
+            self.decorated_methods.discard(func)
 
     def forbid(self, func):
         """
@@ -58,24 +56,17 @@ class RegisteringFunctions:
         Если декорирование функции ранее было запрещено, вернется оригинал.
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
         """
+        if before_change_func in self.unlogged_functions:
+            return before_change_func
         if self.is_forbidden(func):
             if unlog_decorator is None:
                 from polog.unlog import unlog
                 unlog_decorator = unlog
             return unlog_decorator(func)
         if self.is_decorator(before_change_func):
-            if self.is_method(before_change_func):
-                self.remove(before_change_func)
-                self.add(wrapper, func, is_method=is_method)
-                return wrapper
-            else:
-                if not is_method:
-                    self.remove(before_change_func)
-                    self.add(wrapper, func, is_method=is_method)
-                    return wrapper
-                else:
-                    return before_change_func
-        self.remove(func)
+            if is_method and not self.is_method(before_change_func):
+                return before_change_func
+        # Прежняя обертка остается в реестре: она может использоваться где-то еще, например в родительском классе.
         self.add(wrapper, func, is_method=is_method)
         return wrapper
 
@@ -101,7 +92,6 @@ class RegisteringFunctions:
         """
         Проверка, что функция была задекорирована через декоратор класса.
         """
-        func = self.get_original(func)
         result = func in self.decorated_methods
         return result
 
diff --git a/polog/core/utils/class_methods.py b/polog/core/utils/class_methods.py
new file mode 100644
index 0000000..51896cb
--- /dev/null
+++ b/polog/core/utils/class_methods.py
@@ -0,0 +1,25 @@
+from inspect import getattr_static, isclass
+
+
+def get_method(Class, name):
+    """
+    Извлекаем из класса метод по имени, без связывания его с классом.
+
+    Возвращается кортеж из двух элементов: исходная функция и функция, которую нужно применить к новой версии метода перед сохранением в классе (для статических методов и методов класса это восстановление соответствующей обертки).
+    Если по данному имени в классе лежит не метод (например, вложенный класс или вызываемый объект, который не связывается с экземпляром), возвращается None.
+    """
+    if not isinstance(name, str):
+        raise TypeError('The name of the method must be a string.')
+
+    item = getattr_static(Class, name)
+    restore = lambda method: method
+
+    if isinstance(item, (staticmethod, classmethod)):
+        restore = type(item)
+        item = item.__func__
+    elif not hasattr(type(item), '__get__'):
+        return None
+
+    if not callable(item) or isclass(item):
+        return None
+    return item, restore
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 42e1044..51fe8c0 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,6 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.class_methods import get_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -20,20 +21,25 @@ class ClassLogger:
             # Получаем имена методов класса.
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
-                method = getattr(Class, method_name)
+                maybe_method = get_method(Class, method_name)
+                if maybe_method is None:
+                    continue
+                method, restore = maybe_method
                 # Конфигурируем декоратор для метода.
                 wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
                 # Применяем его.
                 new_method = wrapper(method)
-                setattr(Class, method_name, new_method)
+                setattr(Class, method_name, restore(new_method))
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
             # Если они уже залогированы - нужно вернуть оригиналы.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                method = getattr(Class, method_name)
-                original = register.get_original(method)
-                setattr(Class, method_name, original)
+                method, restore = get_method(Class, method_name)
+                # Декораторы, навешенные на сам метод, приоритетнее декоратора класса, их не трогаем.
+                if register.is_method(method):
+                    original = register.get_original(method)
+                    setattr(Class, method_name, restore(original))
             return Class
         if not len(args):
             return decorator
@@ -66,7 +72,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if (not func.startswith('__') and not func.endswith('__')) and get_method(Class, func) is not None]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index 24ae4a7..cf532fb 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -8,6 +8,7 @@ from inspect import iscoroutinefunction
 from polog.core.stores.registering_functions import RegisteringFunctions
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
+from polog.core.utils.class_methods import get_method
 
 
 context = ContextVar('unlog')
@@ -32,9 +33,11 @@ class UnlogDecorator:
             if isclass(obj):
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
-                        maybe_method = getattr(obj, function_name)
-                        if callable(maybe_method):
-                            setattr(obj, function_name, self.unlog_function(maybe_method, full))
+                        maybe_method = get_method(obj, function_name)
+                        if maybe_method is not None:
+                            method, restore = maybe_method
+                            # Унаследованный метод запрещено логировать только в данном классе, но не в родительском.
+                            setattr(obj, function_name, restore(self.unlog_function(method, full, forbid=function_name in vars(obj))))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
@@ -57,21 +60,16 @@ class UnlogDecorator:
 
         return log
 
-    def unlog_function(self, function, full):
+    def unlog_function(self, function, full, forbid=True):
         """
         Запрет логирования функции.
 
         Он достигается через внесение id функции в реестр функций, который запрещено декорировать, через класс RegisteringFunctions.
         Если функция уже была задекорирована логгером, возвращается ее оригинал, до декорирования. Класс RegisteringFunctions хранит ссылку на оригинальную версию каждой задекорированной функции и возвращает ее по запросу.
         """
-        if not RegisteringFunctions().is_decorator(function):
-            RegisteringFunctions().forbid(function)
-            result = function
-        else:
-            original_function = RegisteringFunctions().get_original(function)
-            RegisteringFunctions().remove(function)
-            RegisteringFunctions().forbid(original_function)
-            result = original_function
+        result = RegisteringFunctions().get_original(function)
+        if forbid:
+            RegisteringFunctions().forbid(result)
 
         wrapped_result = self.set_unlogged(result, full)
         RegisteringFunctions().add_unlogged(wrapped_result, result)
-- 
2.43.0


From 22c9a0f9a3d276aadeae77531a9f86318b1c7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 12/41] fix: the handler registry keeps its promises about free
 names, repeated objects and live namespaces

---
 polog/config.py                               | 29 +++++++++++--------
 .../trees/named_tree/projector.py             |  4 ++-
 .../data_structures/trees/named_tree/tree.py  |  5 +++-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index f5b537f..3e89bc2 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -91,10 +91,11 @@ class config:
                         raise KeyError('Only strings can be used as the handler name.')
                     cls.set_handler(name, value)
             else:
-                if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
-                    raise ValueError('An attempt to store the same handler object in a global namespace.')
-                handler_name = next(cls.pony_names_generator).replace(' ', '_')
-                cls.set_handler(handler_name, handler)
+                with global_handlers.lock:
+                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                    while handler_name in global_handlers:
+                        handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                    cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
 
@@ -103,9 +104,12 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if name in global_handlers:
-            raise NameError(f'Attempt to override a handler named {name}.')
-        global_handlers[name] = handler
+        with global_handlers.lock:
+            if global_handlers.get(name) is not None:
+                raise NameError(f'Attempt to override a handler named {name}.')
+            if any(other is handler for other in global_handlers):
+                raise ValueError('An attempt to store the same handler object in a global namespace.')
+            global_handlers[name] = handler
 
     @staticmethod
     def get_handlers(*names):
@@ -137,11 +141,12 @@ class config:
                 del global_handlers[maybe_name]
             else:
                 handler = maybe_name
-                other_handlers = {id(node.value): node.name for node in global_handlers.childs.values()}
-                if id(handler) not in other_handlers:
-                    raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
-                handler_name = other_handlers[id(handler)]
-                del global_handlers[handler_name]
+                with global_handlers.lock:
+                    handler_names = [node.get_full_name() for node in global_handlers.walker.bfs() if node.value is handler]
+                    if handler is None or not handler_names:
+                        raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
+                    for handler_name in handler_names:
+                        del global_handlers[handler_name]
 
     @staticmethod
     def add_fields(**fields):
diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 466c3ff..fad0056 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -26,7 +26,9 @@ class TreeProjector:
         for path in paths:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
-            node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+            with self.tree.lock:
+                node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+                node_to_put.projected = True
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 30d0b0d..6bd8d72 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -54,6 +54,7 @@ class NamedTree:
         self.name = name
 
         self.value = None
+        self.projected = False
         self.childs = {}
         self.walker = TreeWalker(self)
         self.printer = TreePrinter(self)
@@ -163,6 +164,8 @@ class NamedTree:
         """
         Очистка дерева от лишних пустых нод. То есть от таких, которые не ведут к заполненным нодам.
 
+        Ноды, спроецированные в другие деревья, не удаляются, даже если они пустые. Иначе те деревья потеряли бы связь с данным.
+
         Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду.
         Подъем останавливается, если мы достигли ноды, обозначенной как break_on. Если нода break_on не передана, подъем идет до корня. Это может приводить к неожиданным последствиям, если данный метод запускается на поддереве какого-то более крупного дерева - будут зааффекчены ноды того дерева, которые стоят выше по иерархии относительно поддерева.
 
@@ -176,7 +179,7 @@ class NamedTree:
             for child_name, child in parent.childs.items():
                 if child is break_on:
                     return
-                if not len(child):
+                if not len(child) and not any(x.projected for x in child.walker.bfs()):
                     childs_to_delete.append(child_name)
             for name in childs_to_delete:
                 del parent.childs[name]
-- 
2.43.0


From e2c9444301bd72d076779995fa825eda35607e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 13/41] fix: accept an ellipsis in a tuple of fields and do not
 modify the list the user passed

---
 polog/loggers/auto/function_logger.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index b94f698..a279dad 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -305,15 +305,8 @@ class FunctionLogger:
 
         all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else maybe_fields
 
-        if Ellipsis in all_fields:
-            is_ellipsis = True
-            while Ellipsis in all_fields:
-                try:
-                    all_fields.pop(all_fields.index(Ellipsis))
-                except ValueError:
-                    break
-        else:
-            is_ellipsis = False
+        is_ellipsis = any(x is Ellipsis for x in all_fields)
+        all_fields = [x for x in all_fields if x is not Ellipsis]
 
         pre_result = {}
 
-- 
2.43.0


From 23c9872a48bc31ae48f3a69dcf15a3e79d759703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:48 +0000
Subject: [PATCH 14/41] fix: wrong arguments of the manual loggers are skipped
 in silent mode and reported in strict mode

---
 polog/loggers/handle/abstract.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 2da68fa..3759e39 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -144,10 +144,14 @@ class AbstractHandleLogger:
                     continue
             # При необходимости - конвертируем переданные значения.
             if key in self._convert_values:
-                value = self._convert_values.get(key)(value)
+                try:
+                    value = self._convert_values.get(key)(value)
+                except (KeyError, ValueError) as e:
+                    self._maybe_raise(type(e), e.args[0])
+                    continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != kwargs[key]:
+                if destination[key] != value:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
@@ -170,9 +174,13 @@ class AbstractHandleLogger:
             if name in self._forbidden_fields:
                 self._maybe_raise(KeyError, f'You cannot manually set the "{name}" field as a positional argument.')
             try:
-                destination[name] = position_args[index]
+                value = position_args[index]
             except IndexError:
-                pass
+                continue
+            if name in self._allowed_types and not self._allowed_types[name](value):
+                self._maybe_raise(ValueError, f'The "{name}" argument is in the wrong format.')
+                continue
+            destination[name] = value
 
     def _extract_exception(self, fields, change_success=False, change_level=False):
         """
-- 
2.43.0


From 9cb3389eb37257570931426c952f1c69d141fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:30 +0000
Subject: [PATCH 15/41] fix: objects that cannot be printed or marked and
 unknown level names do not break the decorated code

---
 polog/core/utils/exception_to_dict.py |  5 ++++-
 polog/core/utils/safe_str.py          |  9 +++++++++
 polog/loggers/auto/function_logger.py | 22 +++++++++++++++++-----
 polog/loggers/finalizer.py            |  3 ++-
 polog/utils/json_vars.py              |  5 +++--
 5 files changed, 35 insertions(+), 9 deletions(-)
 create mode 100644 polog/core/utils/safe_str.py

diff --git a/polog/core/utils/exception_to_dict.py b/polog/core/utils/exception_to_dict.py
index 3dc4041..bea1378 100644
--- a/polog/core/utils/exception_to_dict.py
+++ b/polog/core/utils/exception_to_dict.py
@@ -1,6 +1,9 @@
+from polog.core.utils.safe_str import safe_str
+
+
 def exception_to_dict(args_dict, exc):
     """
     Заполняем словарь с аргументами информацией об исключении.
     """
-    args_dict['exception_message'] = str(exc)
+    args_dict['exception_message'] = safe_str(exc)
     args_dict['exception_type'] = type(exc).__name__
diff --git a/polog/core/utils/safe_str.py b/polog/core/utils/safe_str.py
new file mode 100644
index 0000000..6225971
--- /dev/null
+++ b/polog/core/utils/safe_str.py
@@ -0,0 +1,9 @@
+def safe_str(item):
+    """
+    Преобразование объекта в строку, которое не может закончиться исключением.
+    Логирование не должно ломать программу, даже если строковое представление пользовательского объекта получить невозможно.
+    """
+    try:
+        return str(item)
+    except Exception:
+        return object.__repr__(item)
diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index a279dad..c099301 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -182,7 +182,7 @@ class FunctionLogger:
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
-                    exc.checked_by_polog = True
+                    self.mark_exception(exc)
                     exception_to_dict(args_dict, exc)
                     args_dict['success'] = False
                     args_dict['traceback'] = get_traceback(cut_string_at_begin=1)
@@ -221,16 +221,28 @@ class FunctionLogger:
                 log = self.create_log_item(args, kwargs, args_dict, handlers, engine_fields, in_place_fields)
                 self.engine.write(log)
 
+    @staticmethod
+    def mark_exception(exc):
+        """
+        Помечаем исключение как уже записанное. Некоторые исключения (к примеру, замороженные датаклассы) не позволяют это сделать.
+        """
+        try:
+            exc.checked_by_polog = True
+        except Exception:
+            pass
+
     def resolve_normal_level(self, level):
         """
         Определяем уровень события.
         Если клиент определил его сам - используем эту оценку. Если нет - берем дефолтное значение из настроек.
+        Имя уровня, которое не зарегистрировано, игнорируется, так же, как это происходит при логировании ошибок.
         """
         if level is not None:
-            level = Levels.get(level)
-        else:
-            level = self.settings['default_level']
-        return level
+            try:
+                return Levels.get(level)
+            except (KeyError, ValueError):
+                pass
+        return self.settings['default_level']
 
     def create_log_item(self, args, kwargs, data, handlers, engine_fields, in_place_fields):
         """
diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index c07b569..3e66953 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -11,6 +11,7 @@ from polog.loggers.auto.function_logger import flog
 from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.exception_is_suppressed import exception_is_suppressed
+from polog.core.utils.safe_str import safe_str
 
 
 class LoggerRouteFinalizer:
@@ -89,7 +90,7 @@ class LoggerRouteFinalizer:
         """
         if exception_type is not None:
             self.data['exception_type'] = exception_type.__name__
-            self.data['exception_message'] = str(exception_value)
+            self.data['exception_message'] = safe_str(exception_value)
             self.data['success'] = False
             self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
         else:
diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 4e44602..873eec2 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -1,4 +1,5 @@
 from polog.core.stores.settings.settings_store import SettingsStore
+from polog.core.utils.safe_str import safe_str
 
 
 # Простые типы, имеющие соответствия в стандарте json. Если передается объект другого типа, он приводится к str.
@@ -7,9 +8,9 @@ store = SettingsStore()
 
 def get_item(item):
     for one in BASE_JSON_TYPES:
-        if isinstance(item, one):
+        if issubclass(type(item), one):
             return {'value': item, 'type': one.__name__}
-    return {'value': str(item), 'type': type(item).__name__}
+    return {'value': safe_str(item), 'type': type(item).__name__}
 
 def json_vars(*args, **kwargs):
     """
-- 
2.43.0


From 7e7a6ebb1824a4a066ea723ead92bed8c283db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:56 +0000
Subject: [PATCH 16/41] fix: the smart assert logs once and only if the policy
 asks for it

---
 polog/loggers/handle/smart_assert.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 78b9c3f..a2fba9b 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -21,15 +21,22 @@ class SmartAssert(AbstractHandleLogger):
         Выбранный вариант зависит от текущей настройки debug_mode. Если debug_mode == False - поднимется исключение, иначе - пишется лог.
         """
         message = self.get_message(expression_result, *maybe_message)
+        if self.is_true(expression_result):
+            return
+        debug_mode = self.settings['debug_mode']
+        if self.settings['smart_assert_politic'](debug_mode, False):
+            log(message, exception=AssertionError(message))
+        if debug_mode:
+            raise AssertionError(message)
+
+    def is_true(self, expression_result):
+        """
+        Выражение, которое невозможно привести к bool, считается ложным.
+        """
         try:
-            if self.settings['smart_assert_politic'](self.settings['debug_mode'], expression_result):
-                log(message, exception=AssertionError(message))
-            if self.settings['debug_mode'] and not expression_result:
-                raise AssertionError(message)
+            return bool(expression_result)
         except Exception:
-            if self.settings['debug_mode']:
-                log(message, exception=AssertionError(message))
-                raise AssertionError(message)
+            return False
 
     def get_message(self, expression_result, *maybe_message):
         """
-- 
2.43.0


From e3b69d9051c4b89eea5240445565ba1345c7f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:56 +0000
Subject: [PATCH 17/41] fix: concurrent mails do not share one SMTP connection
 and it is always closed

---
 .../handlers/smtp/smtp_dependency_wrapper.py  | 44 ++++++++++++-------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index e9b6c3c..be0be2b 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -19,29 +19,41 @@ class SMTPDependencyWrapper:
         Обертка для отправки сообщения.
         При каждой отправке сообщения объект соединения с сервером создается заново.
         """
-        self.create_smtp_server()
-        self.send_mail(message)
-        self.quit_from_server()
+        server = self.create_smtp_server()
+        try:
+            self.login(server)
+            self.send_mail(server, message)
+        finally:
+            self.quit_from_server(server)
 
     def create_smtp_server(self):
         """
-        Создание объекта SMTP-сервера и логин.
+        Создание объекта SMTP-сервера.
+        Соединение не хранится в self, поскольку несколько воркеров могут отправлять письма одновременно.
         """
-        self._server = smtplib.SMTP_SSL(self.server, self.port)
-        self._server.login(self.email_from, self.password)
+        return smtplib.SMTP_SSL(self.server, self.port)
 
-    def send_mail(self, message):
+    def login(self, server):
         """
-        Отправляем сообщение.
+        Логин на сервере.
         """
-        self._server.sendmail(self.email_from, [self.email_to], message.as_string())
+        server.login(self.email_from, self.password)
 
-    def quit_from_server(self):
+    def send_mail(self, server, message):
         """
-        Разлогиниваемся на сервере.
+        Отправляем сообщение.
         """
-        if hasattr(self, '_server'):
-            try:
-                self._server.quit()
-            except:
-                pass
+        server.sendmail(self.email_from, [self.email_to], message.as_string())
+
+    def quit_from_server(self, server):
+        """
+        Разлогиниваемся на сервере и закрываем соединение.
+        """
+        try:
+            server.quit()
+        except:
+            pass
+        try:
+            server.close()
+        except:
+            pass
-- 
2.43.0


From d26782abd4a8a64bf10de269df648979ba5d564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:06 +0000
Subject: [PATCH 18/41] fix: a failing filter of a handler leads to its
 fallback

---
 polog/handlers/abstract/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/polog/handlers/abstract/base.py b/polog/handlers/abstract/base.py
index 8219269..4b91b9a 100644
--- a/polog/handlers/abstract/base.py
+++ b/polog/handlers/abstract/base.py
@@ -35,13 +35,15 @@ class BaseHandler:
         Благодаря этой функции объект класса является вызываемым.
         В случае неудачи при записи лога, выполняется функция alt, если она была указана при инициализации объекта.
         """
-        if not self.to_do_or_not_to_do(log):
-            return self.run_alt(log)
         try:
-            content = self.get_content(log)
-            self.do(content)
+            written = self.to_do_or_not_to_do(log)
+            if written:
+                content = self.get_content(log)
+                self.do(content)
         except Exception as e:
-            self.run_alt(log)
+            written = False
+        if not written:
+            return self.run_alt(log)
 
     def to_do_or_not_to_do(self, log):
         """
-- 
2.43.0


From 1d147586835d58a9a3c51335a20c480c8222f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 19/41] fix: no record of the standard logging module breaks
 the program or gets lost because of the integration

---
 .../actions/integration_with_logging.py       | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 309f14e..437b2ad 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -3,22 +3,43 @@ import traceback
 from datetime import datetime
 
 from polog.core.stores.settings.actions.decorator import is_action
+from polog.core.utils.exception_escaping import exception_escaping
+from polog.core.utils.safe_str import safe_str
 
 
 def from_logging_filter_to_polog(record):
     """
-    Здесь копируется информация из объекта записи logging и передается логгеру Polog.
+    Фильтр для logging. Копирует запись в Polog, и сообщает logging, нужно ли ему самому обрабатывать эту запись.
     """
-    from polog.loggers.handle.handle_log import simple_handle_log
     from polog.core.stores.settings.settings_store import SettingsStore
 
-
     store = SettingsStore()
+    copy_record_to_polog(record, store)
+    return not store['logging_off']
+
+def get_message(record):
+    """
+    Получаем сообщение из записи logging.
+    Если аргументы записи не подходят к сообщению, logging не поднимает исключение, поэтому и здесь этого быть не должно.
+    """
+    try:
+        return record.getMessage()
+    except Exception:
+        return safe_str(record.msg)
+
+@exception_escaping
+def copy_record_to_polog(record, store):
+    """
+    Здесь копируется информация из объекта записи logging и передается логгеру Polog.
+    """
+    from polog.loggers.handle.handle_log import simple_handle_log
+
     data = {}
 
     data['time'] = datetime.fromtimestamp(record.created)
-    if record.msg:
-        data['message'] = record.getMessage()
+    message = get_message(record)
+    if message:
+        data['message'] = message
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
@@ -26,20 +47,19 @@ def from_logging_filter_to_polog(record):
         data['success'] = True
     data['module'] = record.module
     data['line_number'] = record.lineno
-    if record.funcName.isidentifier():
+    if record.funcName is not None and record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
-    if record.exc_info is not None:
+    if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
-        data['exception_message'] = str(record.exc_info[1])
+        data['exception_message'] = safe_str(record.exc_info[1])
     data['thread'] = f'{record.threadName} ({record.thread})'
     data['process'] = f'{record.processName} ({record.process})'
 
     data['from_logging'] = True
 
     simple_handle_log(**data)
-    return not store['logging_off']
 
 @is_action
 def integration_with_logging(old_value, new_value, store):
-- 
2.43.0


From e0089ba3610364daba82e26c4c51e8e590b5b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 20/41] fix: the combined file lock excludes threads while it
 is being released, survives failures and forks

---
 polog/handlers/file/locks/double_lock.py | 14 +++++++++++---
 polog/handlers/file/locks/file_lock.py   | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 53aac61..6922cd3 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -21,14 +21,22 @@ class DoubleLock:
         Взять оба лока.
         """
         self.thread_lock.acquire()
-        self.file_lock.acquire()
+        try:
+            self.file_lock.acquire()
+        except BaseException:
+            self.thread_lock.release()
+            raise
 
     def __exit__(self, exception_type, exception_value, traceback):
         """
         Отпустить оба лока.
+
+        Порядок важен: файловый лок у всех потоков общий, и, если сначала отпустить лок потока, другой поток успеет войти, после чего текущий поток снимет файловый лок уже с него.
         """
-        self.thread_lock.release()
-        self.file_lock.release()
+        try:
+            self.file_lock.release()
+        finally:
+            self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
diff --git a/polog/handlers/file/locks/file_lock.py b/polog/handlers/file/locks/file_lock.py
index f6b5ab4..2ab1e7f 100644
--- a/polog/handlers/file/locks/file_lock.py
+++ b/polog/handlers/file/locks/file_lock.py
@@ -1,3 +1,5 @@
+import os
+
 from polog.handlers.file.locks.abstract_single_lock import AbstractSingleLock
 
 
@@ -22,13 +24,23 @@ class FileLock(AbstractSingleLock):
             self.off()
         else:
             self.filename = f'{original_file_name}.{lock_file_extension}'
-            self.file = open(self.filename, 'w')
+            self.open()
+
+    def open(self):
+        """
+        Открываем файл блокировки.
+        Запоминаем процесс, в котором это было сделано. Дескриптор, унаследованный при форке, у процессов общий, и не может защитить их друг от друга.
+        """
+        self.file = open(self.filename, 'w')
+        self.pid = os.getpid()
 
     def acquire(self):
         """
         Взять лок.
         """
         import fcntl
+        if self.pid != os.getpid():
+            self.open()
         fcntl.flock(self.file.fileno(), fcntl.LOCK_EX)
 
     def release(self):
-- 
2.43.0


From 497fb3718a6788cf3577b9a532184dae381bf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:49 +0000
Subject: [PATCH 21/41] fix: rotation never overwrites an archive, loses a line
 or leaves the handler without a file

---
 .../handlers/file/file_dependency_wrapper.py  | 64 +++++++++++++++++--
 polog/handlers/file/rotation/rotator.py       |  2 +-
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index df3888f..5d5fdf9 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -68,7 +68,28 @@ class FileDependencyWrapper:
         Запись строки в файл.
         """
         with self.lock:
+            if self.lock.file_lock.active:
+                self.follow_the_file()
             self.file.write(log_string)
+            if self.lock.file_lock.active:
+                # Пока файловый лок не отпущен, в файл никто другой не пишет. Поэтому строка должна оказаться в файле целиком именно сейчас.
+                self.file.flush()
+
+    def follow_the_file(self):
+        """
+        Другой процесс (или другой обработчик) мог ротировать файл, тогда открытый нами файл - это уже архив.
+        В этом случае открываем файл заново.
+        """
+        try:
+            opened = os.fstat(self.file.fileno())
+            try:
+                current = os.stat(self.filename)
+            except FileNotFoundError:
+                current = None
+            if current is None or (opened.st_dev, opened.st_ino) != (current.st_dev, current.st_ino):
+                self.reopen()
+        except OSError:
+            pass
 
     def close(self):
         """
@@ -85,11 +106,13 @@ class FileDependencyWrapper:
 
     def reopen(self):
         """
-        Закрываем файл и открываем снова.
+        Открываем файл снова и закрываем старый файловый объект.
+        Порядок важен: если открыть файл не удалось, писать можно будет в прежний.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
         """
-        self.close()
+        old_file = self.file
         self.open(self.filename)
+        old_file.close()
 
     def flush(self):
         """
@@ -108,7 +131,7 @@ class FileDependencyWrapper:
             return result
         return 0
 
-    def move_file(self, path_to_copy):
+    def move_file(self, path_to_copy, condition=None):
         """
         Перемещаем исходный файл в path_to_copy.
 
@@ -116,14 +139,41 @@ class FileDependencyWrapper:
         Для наших целей для обеспечения целостности записей требуется аж 2 вида блокировок:
         1. Блокировка файла на уровне ОС. Делается, чтобы другие процессы / потоки, открывшие параллельно тот же файл, не могли тут ничего сломать, пока мы работаем с файлом.
         2. Блокировка на уровне потока. Нужна, поскольку с одним обработчиком (читай - одним и тем же файловым объектом) могут параллельно работать воркеры из нескольких потоков.
+
+        Если передана функция condition, она вызывается уже под блокировками, и файл перемещается, только если она вернула True. Пока мы ждали блокировку, файл мог ротировать кто-то еще.
         """
         with self.lock:
+            if condition is not None and not condition():
+                return
+            self.file.flush()
+            path_to_copy = self.reserve_path(path_to_copy)
             try:
                 shutil.move(self.filename, path_to_copy)
-            except FileNotFoundError:
-                self.make_dirs_for_path(path_to_copy)
-                shutil.move(self.filename, path_to_copy)
-            self.reopen()
+            except BaseException:
+                os.remove(path_to_copy)
+                raise
+            old_file = self.file
+            try:
+                self.open(self.filename)
+            except BaseException:
+                shutil.move(path_to_copy, self.filename)
+                raise
+            old_file.close()
+
+    def reserve_path(self, path):
+        """
+        Создаем пустой файл, поверх которого будет перемещен исходный. Если имя уже занято, к нему добавляется номер. Так мы гарантируем, что не перезапишем уже существующий файл.
+        """
+        self.make_dirs_for_path(path)
+        result = path
+        number = 0
+        while True:
+            try:
+                open(result, 'x').close()
+                return result
+            except FileExistsError:
+                number += 1
+                result = f'{path}.{number}'
 
     def make_dirs_for_path(self, path):
         """
diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 685675b..32cb5fc 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -50,7 +50,7 @@ class Rotator:
         Копируем файл с логами в указанную пользователем папку, переоткрываем файл по старому пути.
         В качестве нового имени файла используем название файла корневого скрипта, с измененным на .log расширением и суффиксом, отображающим текущую дату и время.
         """
-        self.file.move_file(os.path.join(self.to, self.new_filename()))
+        self.file.move_file(os.path.join(self.to, self.new_filename()), condition=self.to_do_or_not_to_do)
 
     def generate_rules(self, source_rules):
         """
-- 
2.43.0


From ed5adb6685779a2a3403d8fa1f2c366a7ff685b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:12 +0000
Subject: [PATCH 22/41] fix: the text format shows durations and tracebacks
 truthfully and never fails on a value

---
 polog/handlers/file/base_formatter.py          |  3 ++-
 .../file/base_formatter_fields_extractors.py   | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/polog/handlers/file/base_formatter.py b/polog/handlers/file/base_formatter.py
index 2e4cdf7..39c8784 100644
--- a/polog/handlers/file/base_formatter.py
+++ b/polog/handlers/file/base_formatter.py
@@ -1,4 +1,5 @@
 from polog.core.stores.levels import Levels
+from polog.core.utils.safe_str import safe_str
 from polog.handlers.file.base_formatter_fields_extractors import BaseFormatterFieldsExtractors
 
 
@@ -136,7 +137,7 @@ class BaseFormatter:
                         if isinstance(value, str):
                             base[field_name] = f'{field_name}: "{value}"'
                         else:
-                            base[field_name] = f'{field_name}: {value}'
+                            base[field_name] = f'{field_name}: {safe_str(value)}'
 
     def format(self, data):
         """
diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 416950a..ae2cc89 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -214,7 +214,7 @@ class BaseFormatterFieldsExtractors:
         if var is None:
             return None
         number = f'{var:.8f}'
-        number = number.rstrip('0.')
+        number = number.rstrip('0').rstrip('.')
         result = f"time of work: {number} sec."
         return result
 
@@ -245,11 +245,17 @@ class BaseFormatterFieldsExtractors:
                 return 'no traceback'
             result = []
             for line in traceback:
-                splitted_line = line.split()
-                path = splitted_line[1]
-                line_num = splitted_line[3]
-                where = splitted_line[5]
-                message = ' '.join(splitted_line[6:])
+                if '", line ' not in line:
+                    # Например, отметка о том, что предыдущая строка повторяется несколько раз.
+                    result.append(line.strip())
+                    continue
+                # Путь может содержать пробелы, поэтому он отделяется первым.
+                path, other = line.strip()[len('File '):].split('", line ', 1)
+                path = f'{path}",'
+                splitted_line = other.split()
+                line_num = splitted_line[0]
+                where = splitted_line[2]
+                message = ' '.join(splitted_line[3:])
                 result.append(f'{message} ({path} line {line_num} in {where})')
             full_traceback = '; '.join(result)
             full_traceback = f'traceback: {full_traceback}'
-- 
2.43.0


From e8e21d08bd0c081cc96896e290fd1a18a0ac316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:59 +0000
Subject: [PATCH 23/41] fix: numbers too long to be printed do not break the
 decorated code

---
 polog/utils/json_vars.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 873eec2..fa51d5b 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -6,9 +6,20 @@ from polog.core.utils.safe_str import safe_str
 BASE_JSON_TYPES = (bool, int, float, str)
 store = SettingsStore()
 
+def can_be_printed(number):
+    """
+    Интерпретатор ограничивает длину чисел, которые можно преобразовать в строку.
+    """
+    try:
+        return bool(int.__repr__(number))
+    except ValueError:
+        return False
+
 def get_item(item):
     for one in BASE_JSON_TYPES:
         if issubclass(type(item), one):
+            if one is int and not can_be_printed(item):
+                break
             return {'value': item, 'type': one.__name__}
     return {'value': safe_str(item), 'type': type(item).__name__}
 
-- 
2.43.0


From f5ee83162d13cba19307f4b22be56aa1e1c34c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:57 +0000
Subject: [PATCH 24/41] fix: exceptions that forbid or forge attributes are
 recorded once and do not break the decorated code

---
 polog/loggers/auto/function_logger.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index c099301..25fe1e0 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -179,7 +179,7 @@ class FunctionLogger:
         В т. ч. извлекается вся информация об исключении - название, сообщение и т. д.
         """
         if not unlog.get_unlog_status():
-            if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
+            if 'checked_by_polog' not in vars(exc) or not self.settings['deduplicate_errors']:
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
                     self.mark_exception(exc)
@@ -224,12 +224,10 @@ class FunctionLogger:
     @staticmethod
     def mark_exception(exc):
         """
-        Помечаем исключение как уже записанное. Некоторые исключения (к примеру, замороженные датаклассы) не позволяют это сделать.
+        Помечаем исключение как уже записанное.
+        Отметка ставится в обход атрибутов, поскольку некоторые исключения (к примеру, замороженные датаклассы) не позволяют их менять.
         """
-        try:
-            exc.checked_by_polog = True
-        except Exception:
-            pass
+        vars(exc)['checked_by_polog'] = True
 
     def resolve_normal_level(self, level):
         """
-- 
2.43.0


From 5eed19a1f7251d6950d4fa41eeaee85cddc4034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:15 +0000
Subject: [PATCH 25/41] fix: a rotation that fails halfway leaves the handler
 with a file that is really on the disk

---
 .../handlers/file/file_dependency_wrapper.py  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index 5d5fdf9..be5f02e 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -148,18 +148,30 @@ class FileDependencyWrapper:
             self.file.flush()
             path_to_copy = self.reserve_path(path_to_copy)
             try:
-                shutil.move(self.filename, path_to_copy)
-            except BaseException:
-                os.remove(path_to_copy)
-                raise
+                os.rename(self.filename, path_to_copy)
+            except OSError:
+                self.copy_file_and_clean(path_to_copy)
+                return
             old_file = self.file
             try:
                 self.open(self.filename)
             except BaseException:
-                shutil.move(path_to_copy, self.filename)
+                os.rename(path_to_copy, self.filename)
                 raise
             old_file.close()
 
+    def copy_file_and_clean(self, path_to_copy):
+        """
+        Переименовать файл нельзя, к примеру, если путь назначения находится в другой файловой системе. Тогда копируем содержимое файла и очищаем его.
+        Файл при этом остается открытым, поэтому писать в него можно, чем бы ни закончилась ротация.
+        """
+        try:
+            shutil.copy2(self.filename, path_to_copy)
+            self.file.truncate(0)
+        except BaseException:
+            os.remove(path_to_copy)
+            raise
+
     def reserve_path(self, path):
         """
         Создаем пустой файл, поверх которого будет перемещен исходный. Если имя уже занято, к нему добавляется номер. Так мы гарантируем, что не перезапишем уже существующий файл.
-- 
2.43.0


From 7576e02e5d0eef3a540ebb9857ff223ea7974066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 26/41] fix: log() honours unknown_fields_in_handle_logs

---
 polog/loggers/finalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index 3e66953..a8b5d96 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -5,7 +5,7 @@ from time import time
 import json
 from datetime import datetime
 
-from polog.loggers.handle.handle_log import simple_handle_log
+from polog.loggers.handle.handle_log import handle_log, simple_handle_log
 from polog.loggers.auto.class_logger import clog
 from polog.loggers.auto.function_logger import flog
 from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError
@@ -184,5 +184,5 @@ class LoggerRouteFinalizer:
         Здесь происходит создание объекта функции, который будет вызван в случае, если по контексту будет ясно, что функция log() вызвана для обычного ручного логирования.
         """
         def finalizer():
-            simple_handle_log(*args, **kwargs)
+            handle_log(*args, **kwargs)
         return finalizer
-- 
2.43.0


From 265a8e2bc70f1e2135fc36e26625f443ddc06942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 27/41] fix: a callable without a name that cannot be printed
 does not break a manual log

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 31cc540..23bbda3 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,6 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
+from polog.core.utils.safe_str import safe_str
 from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
@@ -50,7 +51,7 @@ class BaseLogger(AbstractHandleLogger):
             try:
                 fields['function'] = function.__name__
             except AttributeError:
-                fields['function'] = str(function)
+                fields['function'] = safe_str(function)
             try:
                 fields['module'] = function.__module__
             except AttributeError:
-- 
2.43.0


From b53f1c78931570f26b2bb23665e1a2cb1d08d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 28/41] fix: incomparable exceptions passed twice to a manual
 log do not break the program in silent mode

---
 polog/loggers/handle/abstract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 3759e39..0238afc 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -151,7 +151,11 @@ class AbstractHandleLogger:
                     continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != value:
+                try:
+                    is_collision = bool(destination[key] != value)
+                except Exception: # Пользовательские объекты не обязаны уметь сравниваться.
+                    is_collision = destination[key] is not value
+                if is_collision:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
-- 
2.43.0


From 93685398b21a4c854e54e54d5b4382fc59047923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 29/41] fix: a field value that cannot be printed does not
 break the text of a record or a mail

---
 polog/core/log_item.py        | 3 ++-
 polog/handlers/smtp/sender.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 4737cf7..a719231 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -2,6 +2,7 @@ from dataclasses import dataclass
 
 from polog.errors import RewritingLogError
 from polog.core.utils.exception_escaping import exception_escaping
+from polog.core.utils.safe_str import safe_str
 
 
 @dataclass
@@ -66,7 +67,7 @@ class LogItem:
         for field_name, value in self.fields.items():
             if isinstance(value, str):
                 value = f'"{value}"'
-            item = f'{field_name} = {value}'
+            item = f'{field_name} = {safe_str(value)}'
             content.append(item)
         content = ', '.join(content)
         return f'<log item #{id(self)} with content: {content}>'
diff --git a/polog/handlers/smtp/sender.py b/polog/handlers/smtp/sender.py
index b045c00..a3091ff 100644
--- a/polog/handlers/smtp/sender.py
+++ b/polog/handlers/smtp/sender.py
@@ -1,5 +1,6 @@
 from email.mime.text import MIMEText
 
+from polog.core.utils.safe_str import safe_str
 from polog.core.utils.signature_matcher import SignatureMatcher
 from polog.handlers.abstract.base import BaseHandler
 from polog.handlers.smtp.smtp_dependency_wrapper import SMTPDependencyWrapper
@@ -93,7 +94,7 @@ class SMTP_sender(BaseHandler):
         Метод, возвращающий текст письма по умолчанию.
         По умолчанию текст письма - это просто перечисление всех переданных в метод __call__() аргументов.
         """
-        elements = [f'{key} = {value}' for key, value in log.items()]
+        elements = [f'{key} = {safe_str(value)}' for key, value in log.items()]
         text = '\n'.join(elements)
         if text:
             text = f'Message from the Polog:\n\n{text}'
-- 
2.43.0


From 8d51095b45baad13bc39f1b9e95e4844cb47a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 30/41] fix: a level name given to another level no longer
 names the previous one

---
 polog/core/stores/levels.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/polog/core/stores/levels.py b/polog/core/stores/levels.py
index ae9d580..246b7af 100644
--- a/polog/core/stores/levels.py
+++ b/polog/core/stores/levels.py
@@ -19,8 +19,16 @@ class Levels:
             raise KeyError('The key for the logging level can only be a string.')
         if not isinstance(value, int):
             raise ValueError('The level value can only be an integer.')
+        old_value = cls.levels.get(name)
         cls.levels[name] = value
         cls.levels_reverse[value] = name
+        if old_value is not None and old_value != value and cls.levels_reverse.get(old_value) == name:
+            # Имя перешло к другому уровню, прежний им больше не называется.
+            other_names = [other_name for other_name, other_value in tuple(cls.levels.items()) if other_value == old_value]
+            if other_names:
+                cls.levels_reverse[old_value] = other_names[-1]
+            else:
+                cls.levels_reverse.pop(old_value, None)
 
     @classmethod
     def get(cls, key):
-- 
2.43.0


From 76d38fc358c192db8a58a30f14e94ddad0960be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:59 +0000
Subject: [PATCH 31/41] fix: cut the frame of the decorator out of tracebacks
 on modern interpreters

---
 polog/core/utils/cut_traceback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/core/utils/cut_traceback.py b/polog/core/utils/cut_traceback.py
index e2b83c3..513c442 100644
--- a/polog/core/utils/cut_traceback.py
+++ b/polog/core/utils/cut_traceback.py
@@ -10,6 +10,8 @@ try:
         if store['traceback_cutting']:
             tp, exc, tb = exc_info()
             set_exc_info(tp, exc, tb.tb_next)
+            # Начиная с Python 3.11 трейсбек хранится только в самом исключении.
+            BaseException.with_traceback(exc, tb.tb_next)
 
 except ImportError: # pragma: no cover
     def cut_traceback(store):
-- 
2.43.0


From 73b9a896f8e9573ce130e058238bac070d0bbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:32 +0000
Subject: [PATCH 32/41] fix: the class decorator takes the handlers and extra
 fields of the function decorator

The README promises the same arguments for class decorators, but handlers, extra_fields and
extra_engine_fields were refused with a TypeError.
---
 polog/loggers/auto/class_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 51fe8c0..63b3313 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -11,7 +11,7 @@ class ClassLogger:
     Экземпляры данного класса - готовые декораторы для других классов.
     """
 
-    def __call__(self, suppress_all, suppressed_exceptions, *args, methods=(), message=None, level=None, errors_level=None):
+    def __call__(self, suppress_all, suppressed_exceptions, *args, methods=(), message=None, level=None, errors_level=None, handlers=None, extra_fields=None, extra_engine_fields=None):
         """
         Фабрика декораторов классов. Можно вызывать как со скобками, так и без.
         В задекорированном классе @flog() применяется ко всем методам, кроме тех, чье название начинается с '__'.
@@ -26,7 +26,7 @@ class ClassLogger:
                     continue
                 method, restore = maybe_method
                 # Конфигурируем декоратор для метода.
-                wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
+                wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True, handlers=handlers, extra_fields=extra_fields, extra_engine_fields=extra_engine_fields)
                 # Применяем его.
                 new_method = wrapper(method)
                 setattr(Class, method_name, restore(new_method))
-- 
2.43.0


From a7f5c6d8b323e481554ca6f4f5866148236b9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:25 +0000
Subject: [PATCH 33/41] fix: the class decorator leaves out only the names that
 both start and end with underscores

A method like work__ is not a dunder method, but it was not logged.
---
 polog/loggers/auto/class_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 63b3313..91284b2 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -72,7 +72,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if (not func.startswith('__') and not func.endswith('__')) and get_method(Class, func) is not None]
+            methods = [func for func in dir(Class) if not (func.startswith('__') and func.endswith('__')) and get_method(Class, func) is not None]
         else:
             methods = [x for x in methods]
         return methods
-- 
2.43.0


From 339d45202580a73a07a5854d5767d99e5efb7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:58 +0000
Subject: [PATCH 34/41] fix: a function with required keyword-only arguments is
 not accepted as a handler

It could never be called with a record, so every record was lost silently.
---
 polog/core/utils/signature_matcher.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index c49d2ac..2e0e687 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -43,6 +43,7 @@ class SignatureMatcher:
         result *= self.prove_number_of_position_args(parameters)
         result *= self.prove_number_of_named_args(parameters)
         result *= self.prove_names_of_named_args(parameters)
+        result *= self.prove_no_required_named_args(parameters)
         return bool(result)
 
     def prove_is_args(self, parameters):
@@ -79,6 +80,13 @@ class SignatureMatcher:
             result *= (name in names_of_parameters)
         return result
 
+    @staticmethod
+    def prove_no_required_named_args(parameters):
+        """
+        Проверка, что нет обязательных аргументов, которые можно передать только по имени: функцию с ними невозможно вызвать в соответствии со "слепком".
+        """
+        return not any(parameter.kind == parameter.KEYWORD_ONLY and parameter.default is parameter.empty for parameter in parameters)
+
     @classmethod
     def is_handler(cls, function, raise_exception=True):
         """
-- 
2.43.0


From b58a2de25f3fb9674fe205333905810e85a23c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:47 +0000
Subject: [PATCH 35/41] fix: a log() made while the program is exiting is
 written down

---
 polog/loggers/finalizer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index a8b5d96..94163fc 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -34,6 +34,16 @@ class LoggerRouteFinalizer:
         self.data = self.convert_arguments_to_dict(*args, **kwargs)
         self.finalizer = weakref.finalize(self, self.create_finalizer(*args, **kwargs))
 
+    def __del__(self):
+        """
+        При завершении программы weakref в какой-то момент перестает вызывать финализаторы, но другие обработчики выхода все еще могут писать логи. Поэтому неиспользованный объект сам вызывает свой финализатор.
+        """
+        finalizer = getattr(self, 'finalizer', None)
+        unused = finalizer.detach() if finalizer is not None else None
+        if unused is not None:
+            _, write_log, args, kwargs = unused
+            write_log(*args, **kwargs)
+
     def __call__(self, *args, **kwargs):
         """
         Существуют 2 сценария вызова объекта LoggerRouteFinalizer как функции:
-- 
2.43.0


From b661ea4461ba0b5ce890dee413d058b76b6cae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:33 +0000
Subject: [PATCH 36/41] fix: a copy of a recorded exception is recorded as an
 exception of its own

---
 polog/loggers/auto/function_logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 25fe1e0..abd9ed2 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -179,7 +179,7 @@ class FunctionLogger:
         В т. ч. извлекается вся информация об исключении - название, сообщение и т. д.
         """
         if not unlog.get_unlog_status():
-            if 'checked_by_polog' not in vars(exc) or not self.settings['deduplicate_errors']:
+            if vars(exc).get('checked_by_polog') != id(exc) or not self.settings['deduplicate_errors']:
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
                     self.mark_exception(exc)
@@ -226,8 +226,9 @@ class FunctionLogger:
         """
         Помечаем исключение как уже записанное.
         Отметка ставится в обход атрибутов, поскольку некоторые исключения (к примеру, замороженные датаклассы) не позволяют их менять.
+        Отметка содержит id исключения, чтобы она не относилась к его копиям, которым достается вместе с остальными атрибутами.
         """
-        vars(exc)['checked_by_polog'] = True
+        vars(exc)['checked_by_polog'] = id(exc)
 
     def resolve_normal_level(self, level):
         """
-- 
2.43.0


From d913c221c31d084119ea49c6f0e39bf360a2ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 37/41] fix: the memory handler made by several threads at once
 is one object and loses no records

---
 polog/core/utils/read_only_singleton.py | 10 ++++++----
 polog/handlers/memory/saver.py          |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/polog/core/utils/read_only_singleton.py b/polog/core/utils/read_only_singleton.py
index c16da11..a89bf43 100644
--- a/polog/core/utils/read_only_singleton.py
+++ b/polog/core/utils/read_only_singleton.py
@@ -14,8 +14,10 @@ class ReadOnlySingleton:
         После чего подменяется объявленной внутри него же функцией __new__(), которая всегда возвращает экземпляр без дополнительных проверок.
         """
         with cls.create_lock:
-            def __new__(cls, **kwargs):
-                return cls.instance
-            cls.instance = super().__new__(cls)
-            cls.__new__ = __new__
+            # Пока мы ждали блокировку, экземпляр мог создать другой поток.
+            if 'instance' not in vars(cls):
+                def __new__(cls, **kwargs):
+                    return cls.instance
+                cls.instance = super().__new__(cls)
+                cls.__new__ = __new__
             return cls.instance
diff --git a/polog/handlers/memory/saver.py b/polog/handlers/memory/saver.py
index b27ac30..8dae143 100644
--- a/polog/handlers/memory/saver.py
+++ b/polog/handlers/memory/saver.py
@@ -13,9 +13,10 @@ class memory_saver(ReadOnlySingleton, BaseHandler):
     """
     last = None
     all_semaphore = BoundedSemaphore(value=1)
+    init_lock = Lock()
 
     def __init__(self):
-        with Lock():
+        with self.init_lock:
             if not hasattr(self, 'inited'):
                 super().__init__()
                 self.all = []
-- 
2.43.0


From bb3313777123f9ea69fc4c9e31ae8d93d11f8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:20 +0000
Subject: [PATCH 38/41] fix: log.suppress(A).suppress(B) no longer forgets A

---
 polog/loggers/partial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index 2bb1cf1..3b51bdb 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -74,5 +74,8 @@ class RouterPartial:
         Подавление исключений для контекстных менеджеров.
         """
         result = LoggerRouteFinalizer(**self.kwargs)
+        if self.to_calling_before_enter is not None:
+            method_name, args, kwargs = self.to_calling_before_enter
+            getattr(result, method_name)(*args, **kwargs)
         result.suppress(*exceptions)
         return result
-- 
2.43.0


From 7ce2cb9e5fa1866fa087bad0071945d4c65e9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:24 +0000
Subject: [PATCH 39/41] fix: input variables set with message() are no longer
 overwritten by the automatic ones

---
 polog/loggers/auto/function_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index abd9ed2..df27f0f 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -193,9 +193,9 @@ class FunctionLogger:
                     if service_name is not None:
                         args_dict['service_name'] = service_name
                     input_variables = json_vars(*args, **kwargs)
-                    _message._copy_context(args_dict)
                     if not (input_variables is None):
                         args_dict['input_variables'] = input_variables
+                    _message._copy_context(args_dict)
                     log = self.create_log_item(args, kwargs, args_dict, handlers, engine_fields, in_place_fields)
                     self.engine.write(log)
 
@@ -214,10 +214,10 @@ class FunctionLogger:
                 service_name = self.settings['service_name']
                 if service_name is not None:
                     args_dict['service_name'] = service_name
-                _message._copy_context(args_dict)
                 input_variables = json_vars(*args, **kwargs)
                 if not (input_variables is None):
                     args_dict['input_variables'] = input_variables
+                _message._copy_context(args_dict)
                 log = self.create_log_item(args, kwargs, args_dict, handlers, engine_fields, in_place_fields)
                 self.engine.write(log)
 
-- 
2.43.0


From dd3e1473f7b846c6a7cbc68e362c3436ec6f3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:33 +0000
Subject: [PATCH 40/41] fix: with max_delay_before_exit=0 the exit no longer
 waits for the handlers without limit

---
 polog/core/engine/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index a872806..a9bba5a 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -159,7 +159,8 @@ class Engine(ReadOnlySingleton):
         """
         @atexit.register
         @exception_escaping
-        @time_limit(lambda: self.settings['max_delay_before_exit'])
+        # Нулевой лимит для time_limit означает отсутствие лимита, а здесь - что ждать не нужно.
+        @time_limit(lambda: self.settings['max_delay_before_exit'] or self.settings['time_quant'])
         # Учет данной функции при расчете покрытия тестами отключен, поскольку для его проверки используется отдельный процесс, который, к сожалению, не учитывается сборщиком статистики.
         def checker(): # pragma: no cover
             self.block()
-- 
2.43.0


From fdadd33057e8e433896ca15770c15d18e16249eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:53 +0000
Subject: [PATCH 41/41] fix: the first record does not get an engine without
 workers when pool_size is being set to 0

---
 polog/core/engine/real_engines/fabric.py               | 6 ++++--
 polog/core/engine/real_engines/multithreaded/engine.py | 4 ++--
 polog/core/engine/real_engines/multithreaded/pool.py   | 8 ++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/polog/core/engine/real_engines/fabric.py b/polog/core/engine/real_engines/fabric.py
index c6f591a..49f47da 100644
--- a/polog/core/engine/real_engines/fabric.py
+++ b/polog/core/engine/real_engines/fabric.py
@@ -8,6 +8,8 @@ def real_engine_fabric(settings):
 
     Т. к. их несколько, выбор движка осуществляется исходя из актуальных настроек.
     """
-    if settings.force_get('pool_size') == 0:
+    # Размер пула читается один раз: пока движок создается, другой поток может менять эту настройку.
+    pool_size = settings.force_get('pool_size')
+    if pool_size == 0:
         return SingleThreadedRealEngine(settings)
-    return MultiThreadedRealEngine(settings)
+    return MultiThreadedRealEngine(settings, pool_size=pool_size)
diff --git a/polog/core/engine/real_engines/multithreaded/engine.py b/polog/core/engine/real_engines/multithreaded/engine.py
index e7a6e73..c805f84 100644
--- a/polog/core/engine/real_engines/multithreaded/engine.py
+++ b/polog/core/engine/real_engines/multithreaded/engine.py
@@ -22,9 +22,9 @@ class MultiThreadedRealEngine(AbstractRealEngine):
     При работе с многопоточным движком важно правильно выбирать нужное количество воркеров. Если их слишком много, большинство будет простаивать, отжирая вычислительную мощность. Если слишком мало, они не будут успевать обработать все логи в очереди. Выбирать количество воркеров нужно в том числе с учетом типа обработчиков. Некоторые обработчики - например те, что подолгу ожидают ответа сети - создают мало CPU-нагрузки, и в этом случае имеет смысл увеличить число воркеров.
     """
 
-    def __init__(self, settings):
+    def __init__(self, settings, pool_size=None):
         super().__init__(settings)
-        self.pool = ThreadPool(settings)
+        self.pool = ThreadPool(settings, pool_size=pool_size)
 
     def write(self, log_item):
         """
diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index a314f73..3018955 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -14,13 +14,13 @@ class ThreadPool:
     .put(<данные лога>) - записать лог.
     .stop() - дождаться записи всех логов в очереди, после чего завершить потоки-воркеры и присоединить их.
     """
-    def __init__(self, settings):
+    def __init__(self, settings, pool_size=None):
         self.settings = settings
         self.queue = Queue(maxsize=self.settings.force_get('max_queue_size'))
         self.lock = Lock()
         self.closed = False
         self.puts_in_progress = 0
-        self.workers = self.create_workers()
+        self.workers = self.create_workers(settings.force_get('pool_size') if pool_size is None else pool_size)
 
     def put(self, log_item):
         """
@@ -90,12 +90,12 @@ class ThreadPool:
                 break
             time.sleep(delay)
 
-    def create_workers(self):
+    def create_workers(self, pool_size):
         """
         Создание и запуск воркеров.
         """
         workers = []
-        for index in range(self.settings.force_get('pool_size')):
+        for index in range(pool_size):
             worker = Worker(self.queue, index, self.settings)
             workers.append(worker)
         return workers
-- 
2.43.0

