class HttpResponse(object):
    status_code = 200

    def __init__(self, content='', content_type=None, status=None):
        self._headers = {}
        if content_type is None:
            content_type = 'text/html; charset=utf-8'
        if status is not None:
            self.status_code = status
        self['Content-Type'] = content_type
        self.content = content

    def __setitem__(self, header, value):
        self._headers[header] = value

    def __getitem__(self, header):
        return self._headers[header]

    def write(self, content):
        self.content = self.content + content


class HttpResponseBadRequest(HttpResponse):
    status_code = 400


class HttpResponseServerError(HttpResponse):
    status_code = 500


class HttpResponseNotAllowed(HttpResponse):
    status_code = 405

    def __init__(self, permitted_methods, *args, **kwargs):
        super(HttpResponseNotAllowed, self).__init__(*args, **kwargs)
        self['Allow'] = ', '.join(permitted_methods)
