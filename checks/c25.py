"""C25: one mail per record, each over its own connection, which is always closed."""
import email
import email.header
import itertools
import smtplib
import sys
import threading

from polog import SMTP_sender, config, log
from polog.core.log_item import LogItem

from mc.sched import calm
from checks.common import P, Program, flush, thread
from checks.files import point

PASSWORD = 'S3cr3t-pa55word'
SENDER, TARGET, HOST, PORT = 'from@example.org', 'to@example.org', 'mail.example.org', 2525


REAL = smtplib.SMTP


class Interrupted(BaseException):
    pass


class Server:
    """Stands in for the mail server: remembers sessions and fails where it is told to."""

    def __init__(self, plan=None, points=False):
        self.sessions, self.points = [], points
        self.plan = plan or {}                # session number -> set of failing steps
        self.error = smtplib.SMTPException
        self.mails = []
        server = self

        class Session:
            def __init__(self, host='', port=0, *args, **kwargs):
                self.busy = None
                self.number = len(server.sessions)
                self.steps, self.closed, self.logged, self.wrong = [], False, None, []
                server.sessions.append(self)
                self.step('connect')
                if (host, port) != (HOST, PORT):
                    self.wrong.append('connected to %r' % ((host, port),))

            def step(self, name, fails=True):
                me = threading.get_ident()
                if self.busy not in (None, me):
                    self.wrong.append('%s while another thread uses the connection' % name)
                self.busy = me
                server.point(name)
                self.busy = None
                if self.closed and name != 'close':
                    self.wrong.append('%s on a closed connection' % name)
                self.steps.append(name)
                if name in server.plan.get(self.number, ()):
                    raise server.error('%s failed' % name)

            def login(self, user, password, **kwargs):
                self.step('login')
                self.logged = (user, password)

            def sendmail(self, sender, to, text, *args, **kwargs):
                self.step('send')
                server.mails.append((self.number, self.logged, sender, [to] if isinstance(to, str) else list(to), text if isinstance(text, str) else bytes(text).decode()))
                return {}

            def send_message(self, message, from_addr=None, to_addrs=None, **kwargs):
                return self.sendmail(from_addr or message['From'], to_addrs or [message['To']], message.as_string())

            def quit(self):
                self.step('quit')
                self.closed = True

            def close(self):
                self.step('close')
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *args):
                try:
                    self.quit()
                except Exception:
                    pass
                finally:
                    self.close()

            def __getattr__(self, name):
                if name.startswith('_'):
                    raise AttributeError(name)
                return lambda *args, **kwargs: (250, b'ok')
        self.Session = Session
        for module in [smtplib] + [m for name, m in list(sys.modules.items()) if name.startswith('polog.handlers.smtp')]:
            for name, value in list(vars(module).items()):
                if isinstance(value, type) and issubclass(value, REAL):
                    setattr(module, name, Session)

    def point(self, name):
        if self.points:
            point(name)


def item_of(n, **fields):
    item = LogItem()
    data = {'message': 'record %d' % n, 'number': n, 'level': 5}
    data.update(fields)
    item.set_data(data)
    return item


def decoded(text):
    m = email.message_from_string(text)
    payload = m.get_payload(decode=True).decode(m.get_content_charset() or 'utf-8')
    subject = ''.join(p.decode(c or 'utf-8') if isinstance(p, bytes) else p for p, c in email.header.decode_header(m['Subject']))
    return m, subject, payload


def judge(k, what, server, mails, fallbacks, handler=None):
    """mails: the numbers of the records that must be delivered; fallbacks: got and expected."""
    got = []
    for session, logged, sender, to, text in server.mails:
        m, subject, payload = decoded(text)
        number = [l for l in payload.splitlines() if l.startswith('number = ')]
        got.append(int(number[0].split()[-1]) if number else None)
        k.eq(len(number), 1, what + ': records in one mail')
        k.eq(logged, (SENDER, PASSWORD), what + ': who was logged in')
        k.eq((sender, to, m['From'], m['To']), (SENDER, [TARGET], SENDER, TARGET), what + ': addresses')
        if PASSWORD in text or PASSWORD in payload:
            k.bad('%s: the password is in the mail', what)
        if 'message = record %s' % got[-1] not in payload:
            k.bad('%s: the mail tells %r', what, payload)
    k.eq(sorted(got), sorted(mails), what + ': delivered records')
    k.eq(sorted(fallbacks[0]), sorted(fallbacks[1]), what + ': records given to the fallback')
    for s in server.sessions:
        for w in s.wrong:
            k.bad('%s: session %d: %s', what, s.number, w)
        if s.steps and s.steps != ['connect'] or (s.steps == ['connect'] and 'connect' not in server.plan.get(s.number, ())):
            if not s.closed and 'close' not in s.steps:
                k.bad('%s: the connection %d was not closed: %r', what, s.number, s.steps)
            if s.steps.count('send') > 1:
                k.bad('%s: several mails over the connection %d', what, s.number)
            if 'send' in s.steps and 'login' not in s.steps[:s.steps.index('send')]:
                k.bad('%s: sent without logging in over %d', what, s.number)


FAULTS = ((), ('connect', ), ('login', ), ('send', ), ('quit', ), ('close', ), ('quit', 'close'), ('login', 'quit', 'close'), ('send', 'quit', 'close'))
FAILS = {'connect', 'login', 'send'}


def history(c, spec):
    """Every sequence of sessions with a fault at every step."""
    faults, error, alt = spec
    server = Server({n: set(f) for n, f in enumerate(faults)})
    server.error = {'smtp': smtplib.SMTPException, 'os': OSError, 'value': ValueError, 'runtime': RuntimeError, 'interrupt': Interrupted}[error]
    seen = []

    def fallback(item):
        seen.append(item['number'])
        if alt == 'failing':
            raise ValueError('the fallback fails too')
    handler = SMTP_sender(SENDER, PASSWORD, HOST, TARGET, port=PORT, alt=None if alt == 'none' else fallback)
    wanted, lost = [], []
    for n, f in enumerate(faults):
        failed = bool(FAILS & set(f))
        interrupted = False
        try:
            handler(item_of(n))
        except Interrupted:
            interrupted = True
        except ValueError:
            if alt != 'failing':
                raise
        if not failed:
            wanted.append(n)
        elif error != 'interrupt':
            lost.append(n)
        if error == 'interrupt' and failed and not interrupted:
            c.bad('%r: the interruption of step %d was swallowed', spec, n)
        if len(server.sessions) != n + 1:
            c.bad('%r: %d connections for %d records', spec, len(server.sessions), n + 1)
            return
    for text in (repr(handler), str(handler), '%s' % [handler], repr(handler.smtp_wrapper) if hasattr(handler, 'smtp_wrapper') else ''):
        if PASSWORD in text:
            c.bad('%r: the password is in %r', spec, text)
    judge(c, repr(spec), server, wanted, (seen, [] if alt == 'none' else lost))
    c.op(len(faults))
    c.state(tuple(tuple(s.steps) for s in server.sessions))


class Mute:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


CONTENTS = ('plain', 'unicode', 'lines', 'html', 'own text', 'own subject', 'bad text', 'bad subject', 'text of wrong type', 'mute', 'empty-ish', 'success', 'failure')


def contents(c, spec):
    """What the mail says."""
    kind, kind2 = spec
    server = Server()
    seen = []

    def fallback(item):
        seen.append(item['number'])

    def own_text(item):
        return 'message = record %d\nnumber = %d\nmy text' % (item['number'], item['number'])

    def own_subject(item):
        return 'My subject %d' % item['number']

    def fail(item):
        raise KeyError('x')

    def wrong(item):
        return 5
    kinds = {kind, kind2}
    kwargs = {}
    fields = {}
    ok = True
    subject = 'Message from the Polog'
    if 'success' in kinds:
        fields['success'] = True
        subject = 'Success message from the Polog'
    if 'failure' in kinds:
        fields['success'] = False
        subject = 'Error message from the Polog'
    if 'html' in kinds:
        kwargs['is_html'] = True
    if 'unicode' in kinds:
        fields['own'] = 'Привет, 世界'
    if 'lines' in kinds:
        fields['own'] = 'a\nb\r\n.\n\nc'
    if 'mute' in kinds:
        fields['mute'] = Mute()
    if 'own text' in kinds:
        kwargs['text_assembler'] = own_text
    if 'own subject' in kinds:
        kwargs['subject_assembler'] = own_subject
        subject = 'My subject 1'
    if 'bad text' in kinds:
        kwargs['text_assembler'] = fail
        ok = False
    if 'text of wrong type' in kinds:
        kwargs['text_assembler'] = wrong
        ok = False
    if 'bad subject' in kinds:
        kwargs['subject_assembler'] = fail
        ok = False
    handler = SMTP_sender(SENDER, PASSWORD, HOST, TARGET, port=PORT, alt=fallback, **kwargs)
    item = item_of(1, **fields)
    handler(item)
    judge(c, repr(spec), server, [1] if ok else [], (seen, [] if ok else [1]))
    if ok and server.mails:
        m, got_subject, payload = decoded(server.mails[0][4])
        c.eq(got_subject, subject, '%r: subject' % (spec,))
        c.eq(m.get_content_subtype(), 'html' if 'html' in kinds else 'plain', '%r: type' % (spec,))
        if 'own text' in kinds:
            c.eq(payload, own_text(item), '%r: text' % (spec,))
        else:
            for name, value in item.items():
                if isinstance(value, Mute):
                    continue
                if '%s = %s' % (name, str(value).replace('\r\n', '\n')) not in payload.replace('\r\n', '\n'):
                    c.bad('%r: no %s in %r', spec, name, payload)
            for name in item:
                c.eq([l.split(' = ')[0] for l in payload.splitlines()].count(name), 1, '%r: mentions of the field %s' % (spec, name))
    c.op()
    c.state(spec)


def selection(c, spec):
    """Filters: a record is mailed or given to the fallback, never both and never neither."""
    only_errors, filter_result, success, fault = spec
    server = Server({0: {fault}} if fault else {})
    seen = []

    def chosen(item):
        if filter_result == 'fail':
            raise ValueError
        return filter_result
    kwargs = {} if filter_result == 'none' else {'filter': chosen}
    handler = SMTP_sender(SENDER, PASSWORD, HOST, TARGET, port=PORT, only_errors=only_errors, alt=lambda item: seen.append(item['number']), **kwargs)
    fields = {} if success is None else {'success': success}
    handler(item_of(0, **fields))
    wanted = not (only_errors and success is not False and (success is None or success)) and filter_result in (True, 'none')
    c.eq(len(server.sessions), 1 if wanted else 0, '%r: connections' % (spec,))
    delivered = wanted and fault in (None, 'quit')
    judge(c, repr(spec), server, [0] if delivered else [], (seen, [] if delivered else [0]))
    c.op()
    c.state(spec)


class Concurrent(Program):
    """Several threads send through one handler; chosen records fail at a chosen step."""

    def __init__(self, count, failing=None, step=None, trace=None, via='threads'):
        self.count, self.failing, self.step_name, self.via = count, failing, step, via
        self.trace = trace or (P + 'handlers/smtp', P + 'handlers/abstract')
        self.name = 'concurrent-%s-%d-%s-%s' % (via, count, failing, step)

    def run(self, k):
        server = Server(points=True)
        seen = []
        plan = self.failing
        step_name = self.step_name
        count = self.count

        class Session(server.Session):
            pass
        # the faults depend on the record, not on the order in which the connections are made
        original = server.Session.sendmail

        def sendmail(session, sender, to, text, *a, **kw):
            if step_name == 'send' and plan is not None and 'number = %d' % plan in decoded(text)[2]:
                session.step('send')
                raise smtplib.SMTPException('refused')
            return original(session, sender, to, text, *a, **kw)
        server.Session.sendmail = sendmail
        if step_name in ('connect', 'login'):
            server.plan = {0: {step_name}}        # the first connection fails, whoever makes it

        def fallback(item):
            seen.append(item['number'])
        with calm():
            handler = SMTP_sender(SENDER, PASSWORD, HOST, TARGET, port=PORT, alt=fallback)
            items = [item_of(n) for n in range(count)]
            if self.via == 'engine':
                config.set(pool_size=2, level=0)
                config.add_handlers(handler)
        if self.via == 'engine':
            for n in range(count):
                log('record %d' % n, number=n)
            flush()
        else:
            ts = [thread(handler, item) for item in items[1:]]
            handler(items[0])
            for t in ts:
                t.join()
        everything = set(range(count))
        if step_name in ('connect', 'login'):
            lost = set(seen)
            k.eq(len(seen), 1, 'failed records')
        else:
            lost = {plan} if plan is not None else set()
        k.eq(len(server.sessions), count, 'connections')
        judge(k, self.name, server, everything - lost, (seen, lost))


def run(ctx):
    depth = 4 if ctx.thorough else 3
    ctx.cases('histories', ((f, e, a) for n in range(1, depth + 1) for f in itertools.product(FAULTS, repeat=n) for e in ('smtp', 'os', 'value', 'interrupt') for a in ('works', 'failing', 'none')
                            if n < 3 or (e in ('smtp', 'interrupt') and a == 'works')), history, managed=False)
    ctx.cases('contents', itertools.combinations_with_replacement(CONTENTS, 2), contents, managed=False)
    ctx.cases('selection', itertools.product((True, False), ('none', True, False, 'fail'), (True, False, None), (None, 'connect', 'login', 'send', 'quit')), selection, managed=False)
    for step in (None, 'connect', 'login', 'send'):
        ctx.explore(Concurrent(2, 1 if step else None, step), 2, 3)
    ctx.explore(Concurrent(2, 0, 'send'), 2, 3)
    ctx.explore(Concurrent(3, 1, 'send'), 1, 2)
    ctx.explore(Concurrent(2, 1, 'send', via='engine'), 1, 2)
