class ErrorListener:
    pass


class ConsoleErrorListener(ErrorListener):
    INSTANCE = None


ConsoleErrorListener.INSTANCE = ConsoleErrorListener()
