"""Source instrumentation and the import hook.

Modules of the code under analysis are compiled from the current source after
rewriting the operations that CPython would otherwise carry out natively on
symbolic values (formatting, calls of builtins, containment, subscripts).
Nothing else about the program is changed: control flow, arithmetic,
attribute access and exceptions are CPython's own.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir"}


def _name(identifier):
    return ast.Name(id=identifier, ctx=ast.Load())


class Transformer(ast.NodeTransformer):

    def __init__(self, module):
        self.module = module
        self.classes = []
        self.scope = []
        self.counter = 0

    # -- helpers ----------------------------------------------------------

    def _call(self, helper, args, keywords=()):
        return ast.Call(func=_name(helper), args=list(args),
                        keywords=list(keywords))

    def _mangle(self, name):
        if self.classes and name.startswith("__") and not name.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + name
        return name

    # -- definitions --------------------------------------------------------

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        self.scope.append(node.name)
        node.body = [self.visit(x) for x in node.body]
        flat = []
        for item in node.body:
            flat.extend(item if isinstance(item, list) else [item])
        node.body = flat
        self.classes.pop()
        self.scope.pop()
        return node

    def _function(self, node):
        node.args.defaults = [self.visit(x) for x in node.args.defaults]
        node.args.kw_defaults = [
            self.visit(x) if x is not None else None
            for x in node.args.kw_defaults]
        body = []
        self.scope.append(node.name)
        for item in node.body:
            result = self.visit(item)
            body.extend(result if isinstance(result, list) else [result])
        label = f"{self.module}.{'.'.join(self.scope)}"
        self.scope.pop()
        entry = ast.copy_location(ast.Expr(value=self._call(
            "__dts_fn__", [ast.Constant(value=label)])), node)
        body.insert(0, entry)
        node.body = body
        node.returns = None
        for arg in (node.args.posonlyargs + node.args.args
                    + node.args.kwonlyargs):
            arg.annotation = None
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target = self.generic_visit(node.target)
        return node

    # -- expressions ----------------------------------------------------------

    def visit_JoinedStr(self, node):
        parts = []
        for value in node.values:
            if isinstance(value, ast.Constant):
                parts.append(value)
            else:
                spec = (self.visit(value.format_spec)
                        if value.format_spec is not None
                        else ast.Constant(value=""))
                conversion = (chr(value.conversion)
                              if value.conversion != -1 else "")
                parts.append(ast.Tuple(
                    elts=[self.visit(value.value),
                          ast.Constant(value=conversion), spec],
                    ctx=ast.Load()))
        return ast.copy_location(self._call("__dts_f__", parts), node)

    def visit_Call(self, node):
        args = [self.visit(x) for x in node.args]
        keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value))
                    for k in node.keywords]
        func = node.func
        if isinstance(func, ast.Name):
            if func.id in SKIP_CALLS:
                return ast.copy_location(ast.Call(
                    func=func, args=args, keywords=keywords), node)
            return ast.copy_location(
                self._call("__dts_c__", [func] + args, keywords), node)
        if isinstance(func, ast.Attribute):
            receiver = self.visit(func.value)
            return ast.copy_location(self._call(
                "__dts_m__",
                [receiver, ast.Constant(value=self._mangle(func.attr))] + args,
                keywords), node)
        return ast.copy_location(
            self._call("__dts_c__", [self.visit(func)] + args, keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(self._call(
                    "__dts_in__", [node.left, node.comparators[0]]), node)
            if isinstance(node.ops[0], ast.Eq):
                return ast.copy_location(self._call(
                    "__dts_eq__", [node.left, node.comparators[0]]), node)
            if isinstance(node.ops[0], ast.NotEq):
                return ast.copy_location(self._call(
                    "__dts_ne__", [node.left, node.comparators[0]]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(self._call(
                    "__dts_notin__", [node.left, node.comparators[0]]), node)
        elif any(isinstance(op, (ast.In, ast.NotIn)) for op in node.ops):
            # a in b in c: left native.
            return node
        return node

    @staticmethod
    def _simple(node):
        return not any(isinstance(x, (
            ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom,
            ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
            ast.SetComp, ast.JoinedStr))
            for x in ast.walk(node))

    @staticmethod
    def _boolean(node):
        """Whether an expression is a comparison or made of comparisons."""
        if isinstance(node, ast.Compare):
            return True
        if isinstance(node, ast.BoolOp):
            return all(Transformer._boolean(x) for x in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return True
        return False

    def visit_BoolOp(self, node):
        simple = all(self._simple(x) and self._boolean(x)
                     for x in node.values[1:]) and self._boolean(
                         node.values[0]) and not self.in_class_body()
        self.generic_visit(node)
        if simple:
            helper = ("__dts_and__" if isinstance(node.op, ast.And)
                      else "__dts_or__")
            empty = ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[])
            return ast.copy_location(self._call(
                helper, [node.values[0]] + [
                    ast.Lambda(args=empty, body=x) for x in node.values[1:]]),
                node)
        return node

    def in_class_body(self):
        return False

    def visit_Compare_chain(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                self._call("__dts_mod__", [node.left, node.right]), node)
        if isinstance(node.op, ast.BitOr):
            return ast.copy_location(
                self._call("__dts_bor__", [node.left, node.right]), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__dts_set__", [
            ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(x, ast.Constant) for x in node.keys):
            return node
        return ast.copy_location(self._call("__dts_dict__", [ast.List(
            elts=[ast.Tuple(elts=[value] if key is None else [key, value],
                            ctx=ast.Load())
                  for key, value in zip(node.keys, node.values)],
            ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__dts_set__", [ast.ListComp(
            elt=node.elt, generators=node.generators)]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__dts_dict__", [ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(
                self._call("__dts_not__", [node.operand]), node)
        return node

    def _index(self, node):
        if isinstance(node, ast.Slice):
            return self._call("__dts_slice__", [
                self.visit(x) if x is not None else ast.Constant(value=None)
                for x in (node.lower, node.upper, node.step)])
        return self.visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call(
                "__dts_gi__", [self.visit(node.value),
                               self._index(node.slice)]), node)
        return self.generic_visit(node)

    # -- statements -------------------------------------------------------------

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript):
            target = node.targets[0]
            return ast.copy_location(ast.Expr(value=self._call(
                "__dts_si__",
                [self.visit(node.value), self.visit(target.value),
                 self._index(target.slice)])), node)
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            self.counter += 1
            base = f"__dts_t{self.counter}a"
            index = f"__dts_t{self.counter}b"
            load = self._call("__dts_gi__", [_name(base), _name(index)])
            value = ast.BinOp(left=load, op=node.op,
                              right=self.visit(node.value))
            if isinstance(node.op, ast.Mod):
                value = self._call("__dts_mod__", [load, value.right])
            statements = [
                ast.Assign(targets=[ast.Name(id=base, ctx=ast.Store())],
                           value=self.visit(node.target.value)),
                ast.Assign(targets=[ast.Name(id=index, ctx=ast.Store())],
                           value=self._index(node.target.slice)),
                ast.Expr(value=self._call(
                    "__dts_si__", [value, _name(base), _name(index)]))]
            for statement in statements:
                ast.copy_location(statement, node)
            return statements
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target], value=self._call(
                    "__dts_mod__", [_name(node.target.id), node.value])), node)
        if isinstance(node.op, ast.BitOr) and isinstance(
                node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target], value=self._call(
                    "__dts_ibor__", [_name(node.target.id), node.value])),
                node)
        return node

    def visit_Delete(self, node):
        result = []
        for target in node.targets:
            if isinstance(target, ast.Subscript):
                statement = ast.Expr(value=self._call(
                    "__dts_di__", [self.visit(target.value),
                                   self._index(target.slice)]))
            else:
                statement = ast.Delete(targets=[target])
            result.append(ast.copy_location(statement, node))
        return result

    def _tick(self, node):
        return ast.copy_location(
            ast.Expr(value=self._call("__dts_tick__", [])), node)

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick(node))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(
            self._call("__dts_iter__", [node.iter]), node.iter)
        node.body.insert(0, self._tick(node))
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(
            self._call("__dts_iter__", [node.iter]), node.iter)
        return node

    def visit_MatchValue(self, node):
        return node


def instrument_source(source, filename, module="?"):
    tree = ast.parse(source, filename)
    tree = Transformer(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


EXECUTED = {}


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as file_object:
            source = file_object.read()
        EXECUTED[fullname] = path
        return instrument_source(source, path, fullname)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, roots):
        # List of (predicate on the module name, directory or None).
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        for prefix, directory in self.roots:
            if fullname != prefix and not fullname.startswith(prefix + "."):
                continue
            relative = fullname.split(".")[len(prefix.split(".")):]
            base = os.path.join(directory, *relative)
            if os.path.isdir(base) and os.path.exists(
                    os.path.join(base, "__init__.py")):
                location = os.path.join(base, "__init__.py")
                return importlib.util.spec_from_file_location(
                    fullname, location, loader=Loader(fullname, location),
                    submodule_search_locations=[base])
            if not relative and os.path.isdir(base):
                # A folder of scripts.
                spec = importlib.machinery.ModuleSpec(
                    fullname, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            location = base + ".py"
            if os.path.exists(location):
                return importlib.util.spec_from_file_location(
                    fullname, location, loader=Loader(fullname, location))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
