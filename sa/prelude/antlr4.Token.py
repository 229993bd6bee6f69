class Token:
    __identity__ = True
    INVALID_TYPE = 0
    EPSILON = -2
    MIN_USER_TOKEN_TYPE = 1
    EOF = -1
    DEFAULT_CHANNEL = 0
    HIDDEN_CHANNEL = 1

    def __init__(self):
        self.type = None
        self.text = None
        self.line = None
        self.column = None
        self.start = None
        self.stop = None
        self.tokenIndex = None
        self.channel = 0


class CommonToken(Token):
    pass
