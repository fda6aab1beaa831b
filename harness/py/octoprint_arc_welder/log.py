"""Stand-in for the OctoPrint plugin's logging module, which PyArcWelder imports."""
class Log:
    def __init__(self): self.rows = []; self.bad = 0; self.limit = 2000
    def _a(self, level, msg):
        if not isinstance(msg, str): self.bad += 1
        self.rows.append((level, msg))
        if len(self.rows) > self.limit: del self.rows[:self.limit // 2]
    def info(self, m): self._a("info", m)
    def warn(self, m): self._a("warn", m)
    def error(self, m): self._a("error", m)
    def debug(self, m): self._a("debug", m)
    def verbose(self, m): self._a("verbose", m)
    def critical(self, m): self._a("critical", m)
    def getEffectiveLevel(self): return 0
LOG = Log()
class LoggingConfigurator:
    def __init__(self, *a): pass
    def get_logger(self, name): return LOG
