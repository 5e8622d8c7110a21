W = 'py_utils/py_utils/wait/'
S = [
    dict(id='p01-increase-sections', property='P01', edits=[(W + 'IntWaitHandler.py', '        with self._lock:\n            self._value += value\n            self._condition.notify_all()', '        self.set_value(self.get_value() + value)')],
         needs='two threads increasing at the same time', breaks='the value is read in one section of the lock and written in another: increments are lost',
         py='''import sys, threading, time
from py_utils.wait.IntWaitHandler import IntWaitHandler


class Slow(int):
    """A number that takes its time to be added."""
    def __radd__(self, other):
        time.sleep(0.5)
        return int(other) + int(self)


h = IntWaitHandler(True, 0)
a = threading.Thread(target=lambda: h.increase(Slow(1)), daemon=True)
a.start()
time.sleep(0.1)
h.increase(1)
a.join(20)
sys.exit(0 if h.get_value() == 2 else 1)
'''),
    dict(id='p01-notify-one', property='P01', edits=[(W + 'WaitHandler.py', '            self._value = value\n            self._condition.notify_all()', '            self._value = value\n            self._condition.notify()')],
         needs='two threads waiting for different values, the second for the one that is set', breaks='set_value wakes only the thread that has waited for longest',
         py='''import os, threading, time
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True, 0)
done = []


def waiter(n):
    h.wait_equal(n)
    done.append(n)


for n in (5, 3):
    threading.Thread(target=waiter, args=(n,), daemon=True).start()
    time.sleep(0.5)
h.set_value(3)
time.sleep(3)
os._exit(0 if done == [3] else 1)
'''),
    dict(id='p01-decrease-silent', property='P01', edits=[(W + 'IntWaitHandler.py', '            self._value -= value\n            self._condition.notify_all()', '            self._value -= value\n            if self._value <= 0:\n                self._condition.notify_all()')],
         needs='a thread waiting for an exact value that is reached by decreasing to a positive number', breaks='decrease notifies only at zero: a thread waiting for another value sleeps for ever',
         py='''import os, threading, time
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True, 5)
done = []
t = threading.Thread(target=lambda: done.append(h.wait_equal(3)), daemon=True)
t.start()
time.sleep(0.3)
h.decrease(2)
t.join(3)
os._exit(0 if done else 1)
'''),
    dict(id='p02-falsy-result', property='P02', edits=[('py_utils/py_utils/debugging/debug_utils.py', "        logger.debug(f'Function <{func.__name__}> finished')\n        return result", "        if result:\n            logger.debug(f'Function <{func.__name__}> finished with <{result}>')\n            return result\n        logger.debug(f'Function <{func.__name__}> finished')")],
         needs='a decorated function that returns a false value other than None', breaks='the decorated function returns None instead of 0, False or an empty list',
         py='''import sys
from py_utils.debugging.debug_utils import debug_function_decorator
f = debug_function_decorator(lambda x: x - 1)
sys.exit(0 if f(1) == 0 and f(3) == 2 and debug_function_decorator(lambda: [])() == [] else 1)
'''),
]
