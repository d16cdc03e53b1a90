"""Assumed model, for the lemmas: the content of a gzip file is what their contracts give."""


class GzipFile(object):
    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None):
        self.fileobj = fileobj

    def read(self, size=-1):
        return self.fileobj.read()

    def close(self):
        pass
