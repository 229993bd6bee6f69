from antlr4 import TerminalNode, TerminalNodeImpl, ErrorNode, ParseTree, ParseTreeVisitor
