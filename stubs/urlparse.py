"""Assumed model, for the lemmas: the scheme of a URL is what its caller gives."""


def urlparse(url):
    return (url, '', '', '', '', '')
