from antlr4 import InputStream
