"""Classes of the kinds a program may define, for the lemmas."""


class Text(str):
    pass


class Unicode(unicode):
    pass


class List(list):
    pass


class Tuple(tuple):
    pass


class Dict(dict):
    pass


class Number(int):
    pass


class Thing(object):
    def method(self):
        pass


class Old:
    pass


class Error(Exception):
    pass


def function():
    pass


anonymous = lambda: None


from pyamf.alias import ClassAlias


class Special(ClassAlias):
    pass
