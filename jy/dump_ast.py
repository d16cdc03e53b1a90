# Run by Jython: parse Python 2 source files with Jython's own parser, write them as JSON.
import ast, sys, json

def conv(x):
    if isinstance(x, ast.AST):
        d = {'_': x.__class__.__name__}
        if hasattr(x, 'lineno'):
            d['ln'] = x.lineno
        for f in (x._fields or ()):
            d[f] = conv(getattr(x, f, None))
        return d
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'AstList':
        return [conv(i) for i in x]
    if x is None or x is True or x is False:
        return x
    if isinstance(x, unicode):
        return {'u': x}
    if isinstance(x, str):
        return {'b': x.decode('latin-1')}
    if isinstance(x, int):
        return {'i': str(x)}
    if isinstance(x, long):
        return {'l': str(x)}
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, complex):
        return {'c': repr(x)}
    # java enums of the antlr AST (operators, contexts)
    return {'e': str(x)}

def main():
    root, out = sys.argv[1], sys.argv[2]
    res = {}
    for name in sys.argv[3:]:
        src = open(root + '/' + name, 'rb').read()
        res[name] = conv(ast.parse(src, name))
    f = open(out, 'wb')
    json.dump(res, f)
    f.close()

main()
