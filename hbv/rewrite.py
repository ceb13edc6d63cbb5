"""Rewriting of expressions: equivalent texts (reordering, regrouping, swapping) and nearly equivalent ones."""
import ast
import copy


def text_of(node):
    return ast.unparse(node)


def _tree(rng, items, join):
    """Random binary grouping of the items in a random order."""
    items = list(items)
    rng.shuffle(items)
    while len(items) > 1:
        k = rng.randrange(len(items) - 1)
        items[k:k + 2] = [join(items[k], items[k + 1])]
    return items[0]


def _sumterms(node, sign, out):
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        _sumterms(node.left, sign, out)
        _sumterms(node.right, sign if isinstance(node.op, ast.Add) else -sign, out)
    else:
        out.append((sign, node))


def _prodterms(node, power, out):
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.Div)):
        _prodterms(node.left, power, out)
        _prodterms(node.right, power if isinstance(node.op, ast.Mult) else -power, out)
    else:
        out.append((power, node))


def _boolterms(node, cls, out):
    if isinstance(node, ast.BoolOp) and isinstance(node.op, cls):
        for x in node.values:
            _boolterms(x, cls, out)
    else:
        out.append(node)


SWAP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def equivalent(rng, text, sums=()):
    """The same expression with its sums, products, and/or terms reordered and regrouped and comparisons swapped."""
    def simple(x):
        return isinstance(x, ast.Name) and x.id not in sums or isinstance(x, (ast.Constant, ast.Call))

    def go(node):
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            terms = []
            _sumterms(node, 1, terms)
            pos = [go(x) for s, x in terms if s > 0]
            neg = [go(x) for s, x in terms if s < 0]

            def add(x, y):
                if x[0] == y[0]:
                    return (x[0], ast.BinOp(x[1], ast.Add(), y[1]))
                elif x[0] > 0:
                    return (1, ast.BinOp(x[1], ast.Sub(), y[1]))
                elif rng.random() < 0.3:
                    return (-1, ast.BinOp(x[1], ast.Sub(), y[1]))
                else:
                    return (1, ast.BinOp(y[1], ast.Sub(), x[1]))
            s, out = _tree(rng, [(1, x) for x in pos] + [(-1, x) for x in neg], add)
            return out if s > 0 else ast.UnaryOp(ast.USub(), out)
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.Div)):
            terms = []
            _prodterms(node, 1, terms)

            def mul(x, y):
                if x[0] == y[0]:
                    return (x[0], ast.BinOp(x[1], ast.Mult(), y[1]))
                elif x[0] > 0:
                    return (1, ast.BinOp(x[1], ast.Div(), y[1]))
                else:
                    return (1, ast.BinOp(y[1], ast.Div(), x[1]))
            if any(s < 0 for s, x in terms) and any(not simple(x) for s, x in terms):
                # dividing by a sum: regrouping across the division is not claimed
                return ast.BinOp(go(node.left), node.op, go(node.right))
            p, out = _tree(rng, [(s, go(x)) for s, x in terms], mul)
            return out if p > 0 else ast.BinOp(ast.Constant(1), ast.Div(), out)
        elif isinstance(node, ast.BoolOp):
            terms = []
            cls = type(node.op)
            _boolterms(node, cls, terms)
            return _tree(rng, [go(x) for x in terms], lambda x, y: ast.BoolOp(cls(), [x, y]))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            left, right = go(node.left), go(node.comparators[0])
            if rng.random() < 0.5:
                return ast.Compare(right, [SWAP[type(node.ops[0])]()], [left])
            return ast.Compare(left, [node.ops[0]], [right])
        out = copy.copy(node)
        for name, x in ast.iter_fields(node):
            if isinstance(x, ast.expr):
                setattr(out, name, go(x))
            elif isinstance(x, list):
                setattr(out, name, [go(y) if isinstance(y, ast.expr) else y for y in x])
        return out
    return text_of(go(ast.parse(text.strip(), mode="eval").body))


def nearly(rng, text, fields):
    """The expression with one small change (which may or may not change its meaning)."""
    tree = ast.parse(text.strip(), mode="eval")
    nodes = [x for x in ast.walk(tree) if isinstance(x, (ast.BinOp, ast.Compare, ast.BoolOp, ast.Constant, ast.Name, ast.UnaryOp, ast.Call))]
    node = rng.choice(nodes)
    if isinstance(node, ast.BinOp):
        r = rng.random()
        if r < 0.4:
            node.left, node.right = node.right, node.left
        elif r < 0.9:
            node.op = rng.choice([ast.Add(), ast.Sub(), ast.Mult(), ast.Div(), ast.Pow() if isinstance(node.right, ast.Constant) else ast.Sub(), ast.FloorDiv(), ast.Mod()])
        else:
            inner = copy.copy(node.left)
            node.left = ast.UnaryOp(ast.USub(), inner)
    elif isinstance(node, ast.Compare):
        r = rng.random()
        if isinstance(node.ops[0], (ast.In, ast.NotIn)):
            node.ops[0] = ast.NotIn() if isinstance(node.ops[0], ast.In) else ast.In()
        elif r < 0.4 and len(node.ops) == 1:
            node.left, node.comparators = node.comparators[0], [node.left]
        else:
            k = rng.randrange(len(node.ops))
            node.ops[k] = rng.choice([ast.Lt(), ast.LtE(), ast.Gt(), ast.GtE(), ast.Eq(), ast.NotEq()])
    elif isinstance(node, ast.BoolOp):
        r = rng.random()
        if r < 0.5:
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        elif r < 0.75:
            node.values[0] = ast.UnaryOp(ast.Not(), node.values[0])
        elif len(node.values) > 2:
            del node.values[-1]
        else:
            node.values.append(copy.deepcopy(node.values[0]))
    elif isinstance(node, ast.Constant):
        if isinstance(node.value, bool) or node.value is None:
            return None
        if isinstance(node.value, str):
            node.value = rng.choice(["one", "two", "three", ""])
        else:
            node.value = rng.choice([node.value + 1, node.value + 0.5, node.value * 2, float(node.value), 0, 1, 2])
    elif isinstance(node, ast.Name):
        if node.id not in fields:
            return None
        node.id = rng.choice([x for x in fields])
    elif isinstance(node, ast.UnaryOp):
        if isinstance(node.op, ast.USub):
            node.op = ast.UAdd()
        else:
            node.operand = ast.UnaryOp(ast.Not(), node.operand)
    elif isinstance(node, ast.Call):
        r = rng.random()
        if len(node.args) >= 2 and r < 0.6:
            node.args[0], node.args[1] = node.args[1], node.args[0]
        elif len(node.args) == 1:
            node.func = ast.Name(rng.choice(["sin", "cos", "abs", "floor", "ceil", "rint", "trunc", "tanh", "exp", "sqrt", "sign"]))
        else:
            return None
    return text_of(ast.fix_missing_locations(tree))


def dyadic(text):
    """The expression with constants whose reciprocals and products are exact, so that folding them in any order gives the same."""
    tree = ast.parse(text.strip(), mode="eval")
    for node in ast.walk(tree):
        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
            node.value = {3: 4, 7: 8, 10: 16, 1.5: 0.5, 3.0: 4.0}.get(node.value, node.value)
    return text_of(tree)


def alternatives(text, limit=2000):
    """Whether the disjunctive normal form of the text (which histbook computes, like any negation of it) is of reasonable size."""
    def recurse(node):
        # sizes of the terms of the normal form
        if isinstance(node, ast.BoolOp):
            parts = [recurse(x) for x in node.values]
            if isinstance(node.op, ast.Or):
                return [y for x in parts for y in x]
            out = [0]
            for p in parts:
                if len(out) * len(p) > limit:
                    raise OverflowError
                out = [x + y for x in out for y in p]
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            terms = recurse(node.operand)
            count = 1
            for t in terms:
                count *= max(t, 1)
                if count * len(terms) > limit:
                    raise OverflowError
            return [len(terms)] * count
        if isinstance(node, ast.Compare):
            return [len(node.ops)]
        return [1]
    try:
        recurse(ast.parse(text.strip(), mode="eval").body)
        return True
    except OverflowError:
        return False
