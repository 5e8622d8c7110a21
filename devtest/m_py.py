W = 'py_utils/py_utils/wait/WaitHandler.py'
I = 'py_utils/py_utils/wait/IntWaitHandler.py'
B = 'py_utils/py_utils/wait/BooleanWaitHandler.py'
T = 'py_utils/py_utils/time/Timer.py'
D = 'py_utils/py_utils/debugging/debug_utils.py'
L = 'py_utils/py_utils/logging/log_utils.py'
c, q = 'caught', 'quiet'
M = [
    ('set no notify', ['P01'], c, [(W, "            self._value = value\n            self._condition.notify_all()", "            self._value = value")]),
    ('set notify one', ['P01'], c, [(W, "            self._value = value\n            self._condition.notify_all()", "            self._value = value\n            self._condition.notify()")]),
    ('set notify if changed', ['P01'], q, [(W, "            self._value = value\n            self._condition.notify_all()", "            if self._value != value:\n                self._value = value\n                self._condition.notify_all()")]),
    ('set notify only true', ['P01'], c, [(W, "            self._value = value\n            self._condition.notify_all()", "            self._value = value\n            if value:\n                self._condition.notify_all()")]),
    ('notify first', ['P01'], q, [(W, "            self._value = value\n            self._condition.notify_all()", "            self._condition.notify_all()\n            self._value = value\n            self._condition.notify_all()")]),
    ('notify before write', ['P01'], c, [(W, "            self._value = value\n            self._condition.notify_all()", "            self._condition.notify_all()\n            self._value = value")]),
    ('increase unlocked', ['P01'], c, [(I, '        with self._lock:\n            self._value += value\n            self._condition.notify_all()', '        self._value += value\n        with self._lock:\n            self._condition.notify_all()')]),
    ('increase via set', ['P01'], c, [(I, '        with self._lock:\n            self._value += value\n            self._condition.notify_all()', '        self.set_value(self.get_value() + value)')]),
    ('increase acquire release', ['P01'], q, [(I, '        with self._lock:\n            self._value += value\n            self._condition.notify_all()', '        self._lock.acquire()\n        try:\n            self._value = value + self._value\n            self._condition.notify_all()\n        finally:\n            self._lock.release()')]),
    ('decrease helper', ['P01'], q, [(I, '        with self._lock:\n            self._value -= value\n            self._condition.notify_all()', '        self.increase(-value)')]),
    ('decrease no notify', ['P01'], c, [(I, '            self._value -= value\n            self._condition.notify_all()', '            self._value -= value')]),
    ('helper change', ['P01'], q, [(I, '        with self._lock:\n            self._value -= value\n            self._condition.notify_all()', '        self._change(-value)\n\n    def _change(self, delta):\n        with self._condition:\n            self._value += delta\n            self._condition.notify_all()')]),
    ('greater equal', ['P01'], c, [(I, 'v >= value', 'v > value')]),
    ('equal is', ['P01'], q, [(I, 'predicate=(lambda v: value == v)', 'predicate=(lambda v: v == value)')]),
    ('ge as or', ['P01'], q, [(I, 'lambda v: v >= value', 'lambda v: v > value or v == value')]),
    ('ge as not', ['P01'], q, [(I, 'lambda v: v >= value', 'lambda v: not v < value')]),
    ('timeout dropped', ['P01'], c, [(I, 'v > value), timeout=timeout)', 'v > value))')]),
    ('timeout ms', ['P01'], c, [(I, 'v > value), timeout=timeout)', 'v > value), timeout=timeout / 1000)')]),
    ('def pred', ['P01'], q, [(I, '        return super().wait(predicate=(lambda v: v > value), timeout=timeout)', '        def greater(v):\n            return v > value\n        return self.wait(greater, timeout)')]),
    ('reason order', ['P01'], q, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met",
                                  "            if not awaken_reason:\n                return AwakeReason.timeout\n            elif not self._enabled:\n                return AwakeReason.disabled\n            else:\n                return AwakeReason.condition_met")]),
    ('reason met first', ['P01'], c, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:", "            if awaken_reason and predicate(self._value):\n                return AwakeReason.condition_met\n            elif not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:")]),
    ('reason early returns', ['P01'], q, [(W, "            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met", "            return AwakeReason.condition_met if awaken_reason else AwakeReason.timeout")]),
    ('reason outside lock', ['P01'], c, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met",
                                         "        if not self.enabled():\n            return AwakeReason.disabled\n        elif not awaken_reason:\n            return AwakeReason.timeout\n        else:\n            return AwakeReason.condition_met")]),
    ('alias reason', ['P01'], c, [(W, 'condition_met = 2', 'condition_met = 1')]),
    ('disable no notify', ['P01'], c, [(W, '        self._enabled = False\n        self._condition.notify_all()', '        self._enabled = False')]),
    ('disable noop if disabled', ['P01'], q, [(W, '        self._enabled = False\n        self._condition.notify_all()', '        if self._enabled:\n            self._enabled = False\n            self._condition.notify_all()')]),
    ('disable when value', ['P01'], c, [(W, '        self._enabled = False\n        self._condition.notify_all()', '        self._enabled = False\n        if self._n_waiting_threads > 1:\n            self._condition.notify_all()')]),
    ('pred ignores disable', ['P01'], c, [(W, 'lambda: not self._enabled_nts() or predicate(self._value)', 'lambda: predicate(self._value)')]),
    ('pred value snapshot', ['P01'], c, [(W, '            self._n_waiting_threads += 1\n', '            self._n_waiting_threads += 1\n            value = self._value\n'), (W, 'predicate(self._value)', 'predicate(value)')]),
    ('pred helper', ['P01'], q, [(W, 'lambda: not self._enabled_nts() or predicate(self._value)', 'lambda: self._awake_nts(predicate)'), (W, '    # Enable/disable methods\n    def _enable_nts', '    def _awake_nts(self, predicate):\n        if not self._enabled:\n            return True\n        return predicate(self._value)\n\n    # Enable/disable methods\n    def _enable_nts')]),
    ('count after wait', ['P01'], c, [(W, '            self._n_waiting_threads += 1\n', ''), (W, '            if not self._enabled:\n', '            self._n_waiting_threads += 1\n            if not self._enabled:\n')]),
    ('blocking no wait', ['P01'], c, [(W, '        self._condition.wait_for(lambda: self._n_waiting_threads <= 0)', '')]),
    ('blocking loop', ['P01'], q, [(W, '        self._condition.wait_for(lambda: self._n_waiting_threads <= 0)', '        while self._n_waiting_threads:\n            self._condition.wait()')]),
    ('blocking timeout', ['P01'], c, [(W, '        self._condition.wait_for(lambda: self._n_waiting_threads <= 0)', '        self._condition.wait_for(lambda: self._n_waiting_threads <= 0, 1)')]),
    ('blocking one left', ['P01'], c, [(W, 'self._n_waiting_threads <= 0)', 'self._n_waiting_threads <= 1)')]),
    ('blocking via public', ['P01'], c, [(W, '        self._disable_nts()\n        # Release', '        self.disable()\n        # Release')]),
    ('get unlocked', ['P01'], c, [(W, '        with self._lock:\n            return self._value', '        return self._value')]),
    ('two locks', ['P01'], c, [(W, 'threading.Condition(self._lock)', 'threading.Condition()')]),
    ('rlock', ['P01'], q, [(W, 'threading.Lock()', 'threading.RLock()')]),
    ('boolean open', ['P01'], c, [(B, 'self.set_value(True)', 'self._value = True')]),
    ('boolean close noop', ['P01'], c, [(B, 'self.set_value(False)', 'self.get_value()')]),
    ('init order', ['P01'], c, [(B, 'super().__init__(enabled, init_value)', 'super().__init__(init_value, enabled)')]),
    ('init enabled', ['P01'], c, [(W, 'self._enabled = enabled', 'self._enabled = True')]),
    ('enable resets', ['P01'], c, [(W, '        self._enabled = True\n', '        self._enabled = True\n        self._n_waiting_threads = 0\n')]),
    ('rename', ['P01'], q, [(W, 'self._n_waiting_threads = 0', 'self._waiting = 0'), (W, '            self._n_waiting_threads += 1', '            self._waiting += 1'), (W, 'self._n_waiting_threads -= 1', 'self._waiting -= 1'), (W, 'self._n_waiting_threads <= 0', 'self._waiting <= 0')]),
    ('no finally', ['P01'], c, [(W, '            finally:\n                self._n', '            except ValueError:\n                pass\n            else:\n                self._n')]),
    ('manual loop monotonic', ['P01'], q, [(W, 'import threading\n', 'import threading\nimport time\n'), (W, '                awaken_reason = self._condition.wait_for(\n                    lambda: not self._enabled_nts() or predicate(self._value),\n                    timeout)',
                                  '                limit = None if timeout is None else time.monotonic() + timeout\n                awaken_reason = True\n                while self._enabled_nts() and not predicate(self._value):\n                    if limit is None:\n                        self._condition.wait()\n                    elif not self._condition.wait(limit - time.monotonic()):\n                        awaken_reason = not self._enabled or predicate(self._value)\n                        break')]),
    ('manual loop', ['P01'], c, [(W, '                awaken_reason = self._condition.wait_for(\n                    lambda: not self._enabled_nts() or predicate(self._value),\n                    timeout)',
                                  '                awaken_reason = True\n                while self._enabled_nts() and not predicate(self._value):\n                    if timeout is None:\n                        self._condition.wait()\n                    elif not self._condition.wait(timeout):\n                        awaken_reason = not self._enabled or predicate(self._value)\n                        break')]),
    ('elapsed reversed', ['P02'], c, [(T, 'time.time() - self._start_time', 'self._start_time - time.time()')]),
    ('elapsed local', ['P02'], q, [(T, '        return time.time() - self._start_time', '        now = time.time()\n        return now - self._start_time')]),
    ('elapsed resets', ['P02'], c, [(T, '        return time.time() - self._start_time', '        now = time.time()\n        elapsed = now - self._start_time\n        self._start_time = now\n        return elapsed')]),
    ('mixed clock', ['P02'], c, [(T, 'return time.time()', 'return time.monotonic()')]),
    ('monotonic', ['P02'], q, [(T, 'import time\n', 'from time import monotonic\n'), (T, 'time.time()', 'monotonic()'), (T, 'time.time()', 'monotonic()'), (T, 'time.time()', 'monotonic()')]),
    ('ctor via reset', ['P02'], q, [(T, 'self._start_time = time.time()', 'self.reset()')]),
    ('reset if', ['P02'], c, [(T, '        self._start_time = time.time()\n\n    def elapsed', '        if self.elapsed() > 0:\n            pass\n        else:\n            self._start_time = time.time()\n\n    def elapsed')]),
    ('no result', ['P02'], c, [(D, '        return result\n', '')]),
    ('kwargs lost', ['P02'], c, [(D, 'func(*args, **kwargs)', 'func(*args)')]),
    ('twice', ['P02'], c, [(D, "        result = func(*args, **kwargs)", "        result = func(*args, **kwargs)\n        if result is None:\n            result = func(*args, **kwargs)")]),
    ('swallow', ['P02'], c, [(D, "        result = func(*args, **kwargs)", "        try:\n            result = func(*args, **kwargs)\n        except Exception:\n            result = None")]),
    ('finally log', ['P02'], q, [(D, "        result = func(*args, **kwargs)\n        logger.debug(f'Function <{func.__name__}> finished')\n        return result", "        try:\n            return func(*args, **kwargs)\n        finally:\n            logger.debug(f'Function <{func.__name__}> finished')")]),
    ('wraps', ['P02'], q, [(D, '    def wrapper(', '    @functools.wraps(func)\n    def wrapper('), (D, 'from py_utils', 'import functools\n\nfrom py_utils')]),
    ('handler twice', ['P02'], c, [(L, '        self.addHandler(l_handler)\n', '        self.addHandler(l_handler)\n        self.addHandler(logging.StreamHandler())\n')]),
    ('level ignored', ['P02'], c, [(L, '        self.set_log_level(log_level)\n\n    def set_format', '        self.activate_debug()\n\n    def set_format')]),
    ('debug info', ['P02'], c, [(L, 'logging.DEBUG)\n', 'logging.INFO)\n')]),
]
