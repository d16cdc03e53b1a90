"""Assumed model of what the code uses of urllib2, for the lemmas."""


class URLError(IOError):
    pass


class HTTPError(URLError):
    pass


class Request(object):
    def __init__(self, url, data=None, headers={}):
        self.url = url
        self.data = data
        self.headers = headers
        self.proxy = None

    def set_proxy(self, host, type):
        self.proxy = (host, type)


def urlopen(request):
    raise URLError('no network')
