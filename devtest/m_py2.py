W = 'py_utils/py_utils/wait/WaitHandler.py'
I = 'py_utils/py_utils/wait/IntWaitHandler.py'
B = 'py_utils/py_utils/wait/BooleanWaitHandler.py'
T = 'py_utils/py_utils/time/Timer.py'
D = 'py_utils/py_utils/debugging/debug_utils.py'
L = 'py_utils/py_utils/logging/log_utils.py'
c, q = 'caught', 'quiet'
WT = """            try:
                awaken_reason = self._condition.wait_for(
                    lambda: not self._enabled_nts() or predicate(self._value),
                    timeout)
            finally:
                self._n_waiting_threads -= 1
                # Notify that this thread has finished waiting (see blocking_disable)
                self._condition.notify_all()

            if not self._enabled:
                return AwakeReason.disabled
            elif not awaken_reason:
                return AwakeReason.timeout
            else:
                return AwakeReason.condition_met
"""
SV = "            self._value = value\n            self._condition.notify_all()"
M = [
    ('r set nts', ['P01'], q, [(W, SV, "            self._set_value_nts(value)\n\n    def _set_value_nts(self, value):\n        self._value = value\n        self._notify_nts()\n\n    def _notify_nts(self):\n        self._condition.notify_all()")]),
    ('r with cond', ['P01'], q, [(W, "        with self._lock:\n            self._value = value", "        with self._condition:\n            self._value = value")]),
    ('r kw', ['P01'], q, [(W, "                    timeout)\n            finally", "                    timeout=timeout)\n            finally")]),
    ('r pred var', ['P01'], q, [(W, "                awaken_reason = self._condition.wait_for(\n                    lambda: not self._enabled_nts() or predicate(self._value),", "                should_awake = lambda: not self._enabled_nts() or predicate(self._value)\n                awaken_reason = self._condition.wait_for(\n                    should_awake,")]),
    ('r pred def', ['P01'], q, [(W, "                awaken_reason = self._condition.wait_for(\n                    lambda: not self._enabled_nts() or predicate(self._value),", "                def should_awake():\n                    if not self._enabled:\n                        return True\n                    return predicate(self._value)\n\n                awaken_reason = self._condition.wait_for(\n                    should_awake,")]),
    ('r result var', ['P01'], q, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met", "            reason = AwakeReason.condition_met\n            if not self._enabled:\n                reason = AwakeReason.disabled\n            elif not awaken_reason:\n                reason = AwakeReason.timeout\n            return reason")]),
    ('r result after lock', ['P01'], q, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met", "            if not self._enabled:\n                reason = AwakeReason.disabled\n            elif not awaken_reason:\n                reason = AwakeReason.timeout\n            else:\n                reason = AwakeReason.condition_met\n\n        return reason")]),
    ('r reason helper', ['P01'], q, [(W, "            if not self._enabled:\n                return AwakeReason.disabled\n            elif not awaken_reason:\n                return AwakeReason.timeout\n            else:\n                return AwakeReason.condition_met", "            return self._reason_nts(awaken_reason)\n\n    def _reason_nts(self, condition_met):\n        if not self._enabled:\n            return AwakeReason.disabled\n        return AwakeReason.condition_met if condition_met else AwakeReason.timeout")]),
    ('r helper wait', ['P01'], q, [(W, "            self._n_waiting_threads += 1\n\n" + WT, "            return self._wait_nts(predicate, timeout)\n\n    def _wait_nts(self, predicate, timeout):\n        self._n_waiting_threads += 1\n\n" + WT.replace('\n    ', '\n')[4:])]),
    ('r count expr', ['P01'], q, [(W, "self._n_waiting_threads += 1", "self._n_waiting_threads = self._n_waiting_threads + 1"), (W, "self._n_waiting_threads -= 1", "self._n_waiting_threads = self._n_waiting_threads - 1")]),
    ('r enabled direct', ['P01'], q, [(W, "not self._enabled_nts() or", "self._enabled is False or")]),
    ('r blocking inline', ['P01'], q, [(W, "            self._blocking_disable_nts()", "            self._disable_nts()\n            self._condition.wait_for(lambda: self._n_waiting_threads == 0)")]),
    ('r blocking order', ['P01'], q, [(W, "        self._disable_nts()\n        # Release", "        self._enabled = False\n        self._condition.notify_all()\n        # Release")]),
    ('r docs', ['P01'], q, [(W, "        with self._lock:\n            self._enable_nts()", "        pass\n        with self._lock:\n            # enable\n            self._enable_nts()\n        return None")]),
    ('r log', ['P01'], q, [(W, "import threading", "import logging\nimport threading"), (W, "        with self._lock:\n            self._enable_nts()", "        logging.getLogger('x').debug('enable %s', self)\n        with self._lock:\n            self._enable_nts()")]),
    ('r assert', ['P01'], q, [(W, SV, "            assert self._lock.locked()\n" + SV)]),
    ('r get local', ['P01'], q, [(W, "            return self._value", "            value = self._value\n        return value")]),
    ('r inc local', ['P01'], q, [(I, "            self._value += value", "            new_value = self._value + value\n            self._value = new_value")]),
    ('r inc super', ['P01'], q, [(I, "        with self._lock:\n            self._value -= value\n            self._condition.notify_all()", "        return self.increase(0 - value)")]),
    ('r eq pred', ['P01'], q, [(I, "        return super().wait(predicate=(lambda v: value == v), timeout=timeout)", "        reason = self.wait(lambda current: current == value, timeout)\n        return reason")]),
    ('r bool pred', ['P01'], q, [(B, "(lambda v: v)", "(lambda v: bool(v))")]),
    ('r bool pred2', ['P01'], q, [(B, "(lambda v: v)", "lambda v: v is True")]),
    ('r bool set', ['P01'], q, [(B, "self.set_value(True)", "self._set(True)"), (B, "    def close(self):", "    def _set(self, value):\n        super().set_value(value)\n\n    def close(self):"), (B, "        self.set_value(False)", "        self._set(False)")]),
    ('r enum', ['P01'], q, [(W, "    disabled = 0,\n", "    disabled = 0\n")]),
    ('r timer', ['P02'], q, [(T, "        return time.time() - self._start_time", "        elapsed = self._now() - self._start_time\n        return elapsed\n\n    def _now(self):\n        return time.time()")]),
    ('r timer static', ['P02'], q, [(T, "        self._start_time = time.time()\n\n    def elapsed", "        now = time.time()\n        self._start_time = now\n\n    def elapsed")]),
    ('r deco', ['P02'], q, [(D, "        logger.debug(f'Function <{func.__name__}> finished')\n", "        name = func.__name__\n        logger.debug('Function <{}> finished'.format(name))\n")]),
    ('r deco ret', ['P02'], q, [(D, "        result = func(*args, **kwargs)", "        _log_call(func, args, kwargs)\n        result = func(*args, **kwargs)"), (D, "        logger.debug(f'Function <{func.__name__}> called with arguments: <{args}>, <{kwargs}>')\n", ""), (D, "def debug_function_decorator", "def _log_call(func, args, kwargs):\n    logger.debug(f'Function <{func.__name__}> called with arguments: <{args}>, <{kwargs}>')\n\n\ndef debug_function_decorator")]),
    ('r deco pass', ['P02'], q, [(D, "        return result\n", "        pass\n        return result\n")]),
    ('r intro loop', ['P02'], q, [(D, "    methods = [method_name for method_name in dir(obj) if callable(getattr(obj, method_name))]\n", "    methods = []\n    for method_name in dir(obj):\n        if callable(getattr(obj, method_name)):\n            methods.append(method_name)\n")]),
    ('r log fmt', ['P02'], q, [(L, "        l_format = logging.Formatter(format)\n        l_handler = logging.StreamHandler()\n        l_handler.setFormatter(l_format)\n", "        l_handler = logging.StreamHandler()\n        l_handler.setFormatter(logging.Formatter(format))\n")]),
    ('r log helper', ['P02'], q, [(L, "        self.addHandler(l_handler)\n", "        self._add(l_handler)\n\n    def _add(self, handler):\n        self.addHandler(handler)\n")]),
    ('r log order', ['P02'], q, [(L, "        self.set_format()\n        self.set_log_level(log_level)\n", "        self.setLevel(log_level)\n        self.set_format()\n")]),
    ('r log super', ['P02'], q, [(L, "        super().__init__(logger_name)\n        self.set_format()\n        self.set_log_level(log_level)", "        super().__init__(logger_name, log_level)\n        self.set_format()")]),
    ('enable notify', ['P01'], q, [(W, "        self._enabled = True\n        # It", "        self._enabled = True\n        self._condition.notify_all()\n        # It")]),
    ('wait skip fast', ['P01'], q, [(W, "            self._n_waiting_threads += 1\n\n", "            if not self._enabled:\n                return AwakeReason.disabled\n\n            self._n_waiting_threads += 1\n\n")]),
    ('wait fast value', ['P01'], c, [(W, "            self._n_waiting_threads += 1\n\n", "            if predicate(self._value):\n                return AwakeReason.condition_met\n\n            self._n_waiting_threads += 1\n\n")]),
    ('wait fast unlocked', ['P01'], c, [(W, "        with self._lock:\n\n            self._n_waiting_threads += 1\n", "        if not self._enabled:\n            return AwakeReason.disabled\n        with self._lock:\n\n            self._n_waiting_threads += 1\n")]),
    ('nested wait', ['P01'], c, [(W, "                    lambda: not self._enabled_nts() or predicate(self._value),", "                    lambda: not self.enabled() or predicate(self._value),")]),
    ('min timeout', ['P01'], c, [(W, "                    timeout)\n            finally", "                    timeout or 60)\n            finally")]),
    ('pred and', ['P01'], c, [(W, "not self._enabled_nts() or predicate", "not self._enabled_nts() and predicate")]),
    ('cond per call', ['P01'], c, [(W, "            self._n_waiting_threads += 1\n\n", "            self._n_waiting_threads += 1\n            self._condition = threading.Condition(self._lock)\n\n")]),
    ('default pred true', ['P01'], c, [(W, "        return False\n", "        return True\n")]),
    ('dec max', ['P01'], c, [(I, "            self._value -= value", "            self._value = max(0, self._value - value)")]),
    ('blank called', ['P01'], c, [(B, "(lambda v: v)", "(lambda v: not v)")]),
    ('decor args', ['P02'], c, [(D, "func(*args, **kwargs)\n", "func(*args[:10], **kwargs)\n")]),
]

F = '        self._handler.setFormatter(logging.Formatter(format))\n'
M += [
    ('f remove', ['P02'], q, [(L, F, '        for h in list(self.handlers):\n            self.removeHandler(h)\n        self._handler = logging.StreamHandler()\n        self.addHandler(self._handler)\n' + F), (L, '        self.addHandler(self._handler)\n        self.set_format()', '        self.set_format()')]),
    ('f remove2', ['P02'], q, [(L, F, '        self.removeHandler(self._handler)\n        self._handler = logging.StreamHandler()\n        self.addHandler(self._handler)\n' + F)]),
    ('f helper', ['P02'], q, [(L, F, '        l_format = logging.Formatter(format)\n        self._handler.setFormatter(l_format)\n')]),
    ('f if', ['P02'], q, [(L, F, '        if self._handler is None:\n            self._handler = logging.StreamHandler()\n            self.addHandler(self._handler)\n' + F), (L, '        self._handler = logging.StreamHandler()\n        self.addHandler(self._handler)\n        self.set_format()', '        self._handler = None\n        self.set_format()')]),
    ('f all', ['P02'], q, [(L, F, '        l_format = logging.Formatter(format)\n        for handler in self.handlers:\n            handler.setFormatter(l_format)\n')]),
    ('f ctor order', ['P02'], q, [(L, '        self._handler = logging.StreamHandler()\n        self.addHandler(self._handler)\n        self.set_format()', '        handler = logging.StreamHandler()\n        self._handler = handler\n        self.set_format()\n        self.addHandler(handler)')]),
    ('f add', ['P02'], c, [(L, F, F + '        self.addHandler(self._handler)\n        self.addHandler(logging.StreamHandler())\n')]),
    ('f default', ['P02'], c, [(L, F, '        self.addHandler(logging.StreamHandler())\n')]),
    ('f none', ['P02'], c, [(L, F, '        pass\n')]),
    ('f cond', ['P02'], c, [(L, F, '        if self.level <= logging.INFO:\n    ' + F)]),
]
