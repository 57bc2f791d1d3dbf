/* every token kind */
K(OPENPAREN)
K(CLOSEPAREN)
K(OPENCURLY)
K(CLOSECURLY)
K(OPENSQUARE)
K(CLOSESQUARE)
K(PLUS)
K(MINUS)
K(STAR)
K(SLASH)
K(PERCENT)
K(GT)
K(LT)
K(EQUAL)
K(BANG)
K(AND)
K(OR)
K(SHIFT_LEFT)
K(SHIFT_RIGHT)
K(COMMA)
K(SEMI)
K(COLON)
K(DOT)
K(ELLIPSIS)
K(LOG_AND)
K(LOG_OR)
K(DECLARE)
K(DECLARECONST)
K(PLUSEQUAL)
K(MINUSEQUAL)
K(STAREQUAL)
K(SLASHEQUAL)
K(PERCENTEQUAL)
K(OREQUAL)
K(ANDEQUAL)
K(EQUALS)
K(NOTEQUALS)
K(LTE)
K(GTE)
K(NULL)
K(BOOL)
K(CHAR)
K(INT)
K(FLOAT)
K(STRING)
K(IDENT)
K(IF)
K(ELSE)
K(WHILE)
K(FOR)
K(RETURN)
K(FUNC)
K(FOREIGN)
K(STRUCT)
K(NEW)
K(CAST)
K(BREAK)
K(CONTINUE)
K(USE)
K(FOREACH)
K(ARROW)
K(QUESTION)
K(EOF)
    case TINY_TOK_LEXER_ERROR: return "ERROR";
