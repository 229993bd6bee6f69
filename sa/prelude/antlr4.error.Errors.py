class RecognitionException(Exception):
    def __init__(self, message=None, recognizer=None, input=None, ctx=None):
        super().__init__(message)
        self.message = message
        self.recognizer = recognizer
        self.input = input
        self.ctx = ctx
        self.offendingToken = None
        self.offendingState = -1

    def getExpectedTokens(self):
        return None


class LexerNoViableAltException(RecognitionException):
    pass


class NoViableAltException(RecognitionException):
    def __init__(self, recognizer, input=None, startToken=None, offendingToken=None, deadEndConfigs=None, ctx=None):
        super().__init__(recognizer=recognizer, input=input, ctx=ctx)
        self.startToken = startToken
        self.offendingToken = offendingToken


class InputMismatchException(RecognitionException):
    def __init__(self, recognizer):
        super().__init__(recognizer=recognizer)


class FailedPredicateException(RecognitionException):
    def __init__(self, recognizer, predicate=None, message=None):
        super().__init__(message=message, recognizer=recognizer)


class ParseCancellationException(Exception):
    pass


class UnsupportedOperationException(Exception):
    pass


class IllegalStateException(Exception):
    pass
