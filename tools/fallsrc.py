"""Reads the tokenizer section of a .fall grammar: [(name, attrs, regex AST, function or '')]."""
import re
import regexes as X


def tokenizer(src):
    i = src.index('tokenizer {') + len('tokenizer {')
    rules = []
    attrs = []
    while True:
        m = re.compile(r'(?:\s+|//[^\n]*)*').match(src, i)
        i = m.end()
        if src[i] == '}':
            break
        if src[i] == '#':
            m = re.compile(r'#\[(\w+)\]').match(src, i)
            attrs.append(m.group(1))
            i = m.end()
            continue
        m = re.compile(r'(\w+)\s+').match(src, i)
        name = m.group(1)
        i = m.end()
        e, i = literal(src, i)
        m = re.compile(r"\s*'(\w+)'(?=\s*(?:\n|//))").match(src, i)
        f = ''
        if m and m.group(1).startswith('parse_'):
            f = m.group(1)
            i = m.end()
        rules.append((name, attrs, e, f))
        attrs = []
    return rules


def literal(src, i):
    if src[i] == "'":
        m = re.compile(r"'((?:[^'\\]|\\.)*)'").match(src, i)
        return X.string(m.group(1)), m.end()
    m = re.compile(r'r(#*)"').match(src, i)
    close = '"' + m.group(1)
    j = src.index(close, m.end())
    return X.parse(src[m.end():j]), j + len(close)
