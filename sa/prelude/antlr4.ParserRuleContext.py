from antlr4 import ParserRuleContext, RuleContext
