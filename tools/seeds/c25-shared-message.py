PROPERTY = 'C25'
NEEDS = 'two workers sending at the same time'
BREAKS = 'The message is kept on the handler between building and sending, so concurrent workers send the message of another record.'
EDITS = [
    ('handlers/smtp/sender.py',
     '        self.smtp_wrapper.send(message)',
     '        self.smtp_wrapper.send(self.message)'),
    ('handlers/smtp/sender.py',
     "        message['To'] = self.email_to\n",
     "        message['To'] = self.email_to\n        self.message = message\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import SMTP_sender
sent = []
class Wrapper:
    def __init__(self, *args):
        pass
    def send(self, message):
        sent.append(message.as_string())
k = 1
while True:
    del sent[:]
    h = SMTP_sender('a@b.c', 'secret', 'smtp.b.c', 'd@e.f', text_assembler=lambda record: record['message'], smtp_wrapper=Wrapper)
    reached, ended = race.pause_at(k, lambda: h({'message': 'text-one'}), lambda: h({'message': 'text-two'}))
    if not reached:
        break
    check(sum('text-one' in x for x in sent) == 1 and sum('text-two' in x for x in sent) == 1, sent)
    if not reached:
        break
    k += 1
done()
'''
