"""Regular expressions on texts with symbolic characters.

A backtracking matcher over the pattern that the standard library's parser
makes of the expression: every test of a symbolic character is a branch.
"""

import re

from re import _constants as constants
from re import _parser as parser

from dtsym import core
from dtsym import runtime
from dtsym.core import SymInt, SymStr, Unsupported, make_str, sym_or, sym_not

_PARSED = {}

_FLAGS = (re.UNICODE | re.MULTILINE | re.DOTALL | re.VERBOSE | re.IGNORECASE
          | re.ASCII)


def parsed(pattern):
    if pattern.flags & ~_FLAGS:
        raise Unsupported(f"regular expression flags {pattern.flags}")
    key = pattern.pattern, pattern.flags
    if key not in _PARSED:
        _PARSED[key] = parser.parse(pattern.pattern, pattern.flags)
    return _PARSED[key]


def _code(char):
    return char if isinstance(char, SymInt) else ord(char)


def _category(name, code):
    if isinstance(code, SymInt) and code.hi > 127:
        if code > 127:
            raise Unsupported("category of a non-ASCII character")
    digit = core.sym_and([code >= 48, code <= 57])
    if name is constants.CATEGORY_DIGIT:
        return digit
    if name is constants.CATEGORY_NOT_DIGIT:
        return sym_not(digit)
    space = sym_or([core.sym_and([code >= 9, code <= 13]), code == 32,
                    core.sym_and([code >= 28, code <= 31])])
    if name is constants.CATEGORY_SPACE:
        return space
    if name is constants.CATEGORY_NOT_SPACE:
        return sym_not(space)
    word = sym_or([digit, core.sym_and([code >= 65, code <= 90]),
                   core.sym_and([code >= 97, code <= 122]), code == 95])
    if name is constants.CATEGORY_WORD:
        return word
    if name is constants.CATEGORY_NOT_WORD:
        return sym_not(word)
    raise Unsupported(f"regular expression category {name}")


def _in(items, code):
    negate = False
    tests = []
    for kind, value in items:
        if kind is constants.NEGATE:
            negate = True
        elif kind is constants.LITERAL:
            tests.append(code == value)
        elif kind is constants.RANGE:
            tests.append(core.sym_and([code >= value[0], code <= value[1]]))
        elif kind is constants.CATEGORY:
            tests.append(_category(value, code))
        else:
            raise Unsupported(f"regular expression set {kind}")
    result = sym_or(tests)
    return sym_not(result) if negate else result


def _cases(code):
    """The codes a character is equal to when case is ignored."""
    if isinstance(code, SymInt):
        if code.hi > 127 and bool(code > 127):
            raise Unsupported("case of a non-ASCII character")
        if bool(core.sym_and([code >= 65, code <= 90])):
            return [code, code + 32]
        if bool(core.sym_and([code >= 97, code <= 122])):
            return [code, code - 32]
        return [code]
    if code > 127:
        raise Unsupported("case of a non-ASCII character")
    return sorted({code, ord(chr(code).lower()), ord(chr(code).upper())})


class Matcher:

    def __init__(self, chars, flags=0):
        self.chars = chars
        self.flags = flags

    def test(self, kind, value, position):
        code = _code(self.chars[position])
        if kind is constants.ANY and self.flags & re.DOTALL:
            return True
        if self.flags & re.IGNORECASE and kind is not constants.ANY:
            codes = _cases(code)
            if kind is constants.LITERAL:
                return any(bool(x == value) for x in codes)
            if kind is constants.NOT_LITERAL:
                return not any(bool(x == value) for x in codes)
            if len(codes) > 1 and any(
                    item[0] in (constants.NEGATE, constants.CATEGORY)
                    for item in value):
                raise Unsupported("set of characters when case is ignored")
            return any(bool(_in(value, x)) for x in codes)
        if kind is constants.LITERAL:
            return bool(code == value)
        if kind is constants.NOT_LITERAL:
            return not bool(code == value)
        if kind is constants.ANY:
            return not bool(code == 10)
        return bool(_in(value, code))

    def run(self, nodes, index, position, groups, then):
        """The end of the first match of nodes[index:] and then, or None."""
        while index < len(nodes):
            kind, value = nodes[index]
            if kind in (constants.LITERAL, constants.NOT_LITERAL,
                        constants.ANY, constants.IN):
                if position >= len(self.chars) or not self.test(
                        kind, value, position):
                    return None
                position += 1
                index += 1
                continue
            following = index + 1

            def rest(at, inner, following=following):
                return self.run(nodes, following, at, inner, then)

            if kind is constants.SUBPATTERN:
                group, add, remove, sub = value
                if add or remove:
                    raise Unsupported("regular expression flags")
                start = position

                def close(at, inner, group=group, start=start, rest=rest):
                    if group is not None:
                        inner = {**inner, group: (start, at)}
                    return rest(at, inner)

                return self.run(list(sub), 0, position, groups, close)
            if kind is constants.BRANCH:
                for sub in value[1]:
                    found = self.run(list(sub), 0, position, groups, rest)
                    if found is not None:
                        return found
                return None
            if kind in (constants.MAX_REPEAT, constants.MIN_REPEAT):
                least, most, sub = value
                return self.repeat(
                    list(sub), least, most, kind is constants.MAX_REPEAT,
                    0, position, groups, rest)
            if kind is constants.AT:
                multiline = self.flags & re.MULTILINE
                if multiline and value is constants.AT_BEGINNING:
                    if position != 0 and not bool(
                            _code(self.chars[position - 1]) == 10):
                        return None
                elif multiline and value is constants.AT_END:
                    if position != len(self.chars) and not bool(
                            _code(self.chars[position]) == 10):
                        return None
                elif value in (constants.AT_BEGINNING,
                               constants.AT_BEGINNING_STRING):
                    if position != 0:
                        return None
                elif value is constants.AT_END_STRING:
                    if position != len(self.chars):
                        return None
                elif value is constants.AT_END:
                    left = len(self.chars) - position
                    if left > 1 or (left == 1 and not bool(
                            _code(self.chars[position]) == 10)):
                        return None
                else:
                    raise Unsupported(f"regular expression {value}")
                index += 1
                continue
            raise Unsupported(f"regular expression {kind}")
        return then(position, groups)

    def repeat(self, sub, least, most, greedy, count, position, groups, rest):

        def again(at, inner):
            if at == position and count >= least:
                return None
            return self.repeat(sub, least, most, greedy, count + 1, at,
                               inner, rest)

        if count < least:
            return self.run(sub, 0, position, groups, again)
        if not greedy:
            found = rest(position, groups)
            if found is not None:
                return found
        if most is constants.MAXREPEAT or count < most:
            found = self.run(sub, 0, position, groups, again)
            if found is not None:
                return found
        return rest(position, groups) if greedy else None


class SymMatch:

    def __init__(self, pattern, chars, start, end, groups):
        self.re = pattern
        self._chars = chars
        self._span = (start, end)
        self._groups = groups

    def _range(self, number):
        if number == 0:
            return self._span
        if isinstance(number, str):
            number = self.re.groupindex[number]
        if not 0 < number <= self.re.groups:
            raise IndexError("no such group")
        return self._groups.get(number, (-1, -1))

    def span(self, number=0):
        return self._range(number)

    def start(self, number=0):
        return self._range(number)[0]

    def end(self, number=0):
        return self._range(number)[1]

    def _text(self, number, default=None):
        start, end = self._range(number)
        if start < 0:
            return default
        return make_str(self._chars[start:end])

    def group(self, *numbers):
        if len(numbers) < 2:
            return self._text(numbers[0] if numbers else 0)
        return tuple([self._text(number) for number in numbers])

    def groups(self, default=None):
        return tuple([self._text(number, default)
                      for number in range(1, self.re.groups + 1)])

    def groupdict(self, default=None):
        return {name: self._text(number, default)
                for name, number in self.re.groupindex.items()}

    def __getitem__(self, number):
        return self._text(number)

    def __bool__(self):
        return True


def _chars(text):
    if not isinstance(text, (str, SymStr)):
        raise TypeError(
            f"expected string or bytes-like object, got "
            f"'{core.py_type(text).__name__}'")
    return text.chars() if isinstance(text, SymStr) else list(text)


def _match_at(pattern, chars, position, whole=False):
    matcher = Matcher(chars, pattern.flags)

    def accept(at, groups):
        if whole and at != len(chars):
            return None
        return at, groups

    found = matcher.run(list(parsed(pattern)), 0, position, {}, accept)
    if found is None:
        return None
    return SymMatch(pattern, chars, position, found[0], found[1])


def _search(pattern, chars, position):
    while position <= len(chars):
        found = _match_at(pattern, chars, position)
        if found is not None:
            return found
        position += 1
    return None


def _all(pattern, chars):
    position = 0
    last_end = -1
    while position <= len(chars):
        found = _search(pattern, chars, position)
        if found is None:
            return
        start, end = found.span()
        if start == end and start == last_end:
            # An empty match right after a match is not one.
            position = start + 1
            continue
        yield found
        last_end = end
        position = end if end > start else end + 1


def _expand(template, match):
    pieces = []
    index = 0
    while index < len(template):
        char = template[index]
        if char != "\\":
            pieces.append(char)
            index += 1
            continue
        after = template[index + 1:index + 2]
        if after.isdigit() and after != "0" and not template[
                index + 2:index + 3].isdigit():
            pieces.append(match.group(int(after)) or "")
        elif after == "\\":
            pieces.append("\\")
        else:
            raise Unsupported("regular expression template")
        index += 2
    return make_str(pieces)


def _sub(pattern, replacement, text, count=0):
    chars = _chars(text)
    pieces = []
    last = 0
    number = 0
    for match in _all(pattern, chars):
        pieces.extend(chars[last:match.start()])
        if isinstance(replacement, str):
            pieces.append(_expand(replacement, match))
        elif isinstance(replacement, SymStr):
            raise Unsupported("symbolic regular expression template")
        else:
            pieces.append(replacement(match))
        last = match.end()
        number += 1
        if count and number >= count:
            break
    pieces.extend(chars[last:])
    return make_str(pieces)


def call(pattern, name, args, kwargs):
    """A method of a compiled expression with a symbolic argument."""
    if kwargs:
        raise Unsupported(f"re.Pattern.{name} with keyword arguments")
    if name == "sub":
        return _sub(pattern, *args)
    if len(args) != 1:
        raise Unsupported(f"re.Pattern.{name} with a position")
    chars = _chars(args[0])
    if name == "match":
        return _match_at(pattern, chars, 0)
    if name == "fullmatch":
        return _match_at(pattern, chars, 0, whole=True)
    if name == "search":
        return _search(pattern, chars, 0)
    if name == "finditer":
        return _all(pattern, chars)
    if name == "findall":
        found = []
        for match in _all(pattern, chars):
            groups = match.groups()
            found.append(match.group() if not groups else groups[0]
                         if len(groups) == 1 else groups)
        return found
    raise Unsupported(f"re.Pattern.{name}")


def _function(name):
    original = getattr(re, name)

    @runtime.models(original)
    def function(pattern, *args, **kwargs):
        if core.has_sym(args) or core.has_sym(kwargs):
            flags = kwargs.pop("flags", 0)
            compiled = pattern if isinstance(
                pattern, re.Pattern) else re.compile(pattern, flags)
            return call(compiled, name, args, kwargs)
        return original(pattern, *args, **kwargs)

    return function


for _name in ("match", "fullmatch", "search", "finditer", "findall", "sub"):
    _function(_name)
