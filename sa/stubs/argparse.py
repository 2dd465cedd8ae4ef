"""Model of the command line parser: options with type, choices, default, nargs, action."""
import sys

SUPPRESS = "==SUPPRESS=="
REMAINDER = "..."
OPTIONAL = "?"
ZERO_OR_MORE = "*"
ONE_OR_MORE = "+"


class ArgumentError(Exception):
    pass


class ArgumentTypeError(Exception):
    pass


class Namespace:
    def __init__(self, **kwargs):
        for name in kwargs:
            setattr(self, name, kwargs[name])

    def __contains__(self, key):
        return key in self.__dict__


class RawDescriptionHelpFormatter:
    pass


class RawTextHelpFormatter:
    pass


class ArgumentDefaultsHelpFormatter:
    pass


class HelpFormatter:
    pass


class BooleanOptionalAction:
    pass


class _Action:
    def __init__(self, flags, kwargs):
        self.flags = flags
        self.type = kwargs.get("type", None)
        self.choices = kwargs.get("choices", None)
        self.nargs = kwargs.get("nargs", None)
        self.action = kwargs.get("action", "store")
        self.const = kwargs.get("const", None)
        self.default = kwargs.get("default", None)
        if self.action == "store_true":
            self.const = True
            self.default = kwargs.get("default", False)
        if self.action == "store_false":
            self.const = False
            self.default = kwargs.get("default", True)
        self.optional = len(flags) > 0 and flags[0].startswith("-")
        self.required = kwargs.get("required", not self.optional and self.nargs not in ("?", "*"))
        if "dest" in kwargs:
            self.dest = kwargs["dest"]
        elif not self.optional:
            self.dest = flags[0]
        else:
            long = [f for f in flags if f.startswith("--")]
            self.dest = (long[0] if len(long) > 0 else flags[0]).lstrip("-").replace("-", "_")

    def takes(self):
        return self.action in ("store", "append")


class ArgumentParser:
    def __init__(self, *args, **kwargs):
        self._actions = []
        self._defaults = {}

    def add_argument(self, *flags, **kwargs):
        action = _Action(flags, kwargs)
        for other in self._actions:
            if action.optional and other.optional:
                for flag in flags:
                    if flag in other.flags:
                        raise ArgumentError("conflicting option string: " + flag)
        self._actions.append(action)
        return action

    def add_argument_group(self, *args, **kwargs):
        return self

    def add_mutually_exclusive_group(self, *args, **kwargs):
        return self

    def set_defaults(self, **kwargs):
        for name in kwargs:
            self._defaults[name] = kwargs[name]

    def error(self, message):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def print_help(self, file=None):
        print("<help>")

    def print_usage(self, file=None):
        print("<usage>")

    def format_help(self):
        return "<help>"

    def _value(self, action, word):
        value = word
        if action.type is not None:
            try:
                value = action.type(word)
            except (TypeError, ValueError):
                self.error("invalid value")
        if action.choices is not None and value not in action.choices:
            self.error("invalid choice")
        return value

    def parse_args(self, args=None, namespace=None):
        if args is None:
            args = sys.argv[1:]
        args = [x for x in args]
        values = {}
        given = []
        rest = []
        i = 0
        while i < len(args):
            word = args[i]
            attached = None
            action = None
            if isinstance(word, str) and word.startswith("--") and "=" in word:
                word, attached = word.split("=", 1)
            for a in self._actions:
                if a.optional and word in a.flags:
                    action = a
            if action is None and word.startswith("--"):
                for a in self._actions:
                    for f in a.flags:
                        if a.optional and f.startswith(word):
                            action = a
            if action is None:
                if word.startswith("-") and not word[1:2].isdigit():
                    self.error("unrecognized arguments")
                rest.append(word)
                i += 1
                continue
            i += 1
            given.append(action.dest)
            if not action.takes():
                values[action.dest] = action.const
                continue
            words = []
            if attached is not None:
                words.append(attached)
            else:
                most = action.nargs if isinstance(action.nargs, int) else (1 if action.nargs in (None, "?") else 1000)
                while i < len(args) and len(words) < most and (not args[i].startswith("-") or args[i][1:2].isdigit() or args[i][1:2] == "."):
                    words.append(args[i])
                    i += 1
            if action.nargs is None and len(words) != 1:
                self.error("expected one argument")
            if isinstance(action.nargs, int) and len(words) != action.nargs:
                self.error("wrong number of arguments")
            if action.nargs == "+" and len(words) == 0:
                self.error("expected at least one argument")
            if action.nargs is None:
                value = self._value(action, words[0])
            elif action.nargs == "?":
                value = self._value(action, words[0]) if len(words) > 0 else action.const
            else:
                value = [self._value(action, w) for w in words]
            if action.action == "append":
                value = (values[action.dest] if action.dest in values else []) + [value]
            values[action.dest] = value
        for action in self._actions:
            if action.optional:
                continue
            if action.nargs in ("*", "+"):
                if len(rest) > 0:
                    values[action.dest] = [self._value(action, w) for w in rest]
                    rest = []
            elif len(rest) > 0:
                values[action.dest] = self._value(action, rest[0])
                rest = rest[1:]
            elif action.required:
                self.error("the following arguments are required")
        if len(rest) > 0:
            self.error("unrecognized arguments")
        for action in self._actions:
            if action.optional and action.required and action.dest not in given:
                self.error("the following arguments are required")
            if action.dest not in values:
                default = action.default
                if action.dest in self._defaults:
                    default = self._defaults[action.dest]
                if isinstance(default, str) and action.type is not None:
                    default = action.type(default)
                values[action.dest] = default
        for name in self._defaults:
            if name not in values:
                values[name] = self._defaults[name]
        result = Namespace() if namespace is None else namespace
        for name in values:
            setattr(result, name, values[name])
        return result

    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args, namespace), []
