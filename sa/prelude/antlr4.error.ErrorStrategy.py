import _sa


class ErrorStrategy:
    pass


class DefaultErrorStrategy(ErrorStrategy):
    def __init__(self):
        self.errorRecoveryMode = False
        self.lastErrorIndex = -1
        self.lastErrorStates = None
        self.nextTokensContext = None
        self.nextTokenState = 0

    def recover(self, recognizer, e):
        _sa.emit("default-recover")

    def consumeUntil(self, recognizer, set_):
        ttype = recognizer.getTokenStream().LA(1)
        while ttype != -1 and ttype not in set_:
            recognizer.consume()
            ttype = recognizer.getTokenStream().LA(1)

    def recoverInline(self, recognizer):
        return None

    def reportError(self, recognizer, e):
        return None

    def sync(self, recognizer):
        return None


class BailErrorStrategy(DefaultErrorStrategy):
    pass
