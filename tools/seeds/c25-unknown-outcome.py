PROPERTY = 'C25'
NEEDS = 'a record without the success field'
BREAKS = 'The subject of a record without an outcome claims an error.'
EDITS = [
    ('handlers/smtp/sender.py',
     "        elif success is None:\n            return 'Message from the Polog'",
     "        elif success is None and not len(log):\n            return 'Message from the Polog'"),
]
DEMO = r'''
import race
from race import check, done
from polog import SMTP_sender
sent = []
class Wrapper:
    def __init__(self, *args):
        pass
    def send(self, message):
        sent.append(message['Subject'])
SMTP_sender('a@b.c', 'secret', 'smtp.b.c', 'd@e.f', smtp_wrapper=Wrapper)({'message': 'x'})
check('rror' not in sent[0], sent)
done()
'''
