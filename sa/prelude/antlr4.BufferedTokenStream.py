from antlr4 import TokenStream, BufferedTokenStream
