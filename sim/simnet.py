"""The simulated network: HTTP servers, and what goes wrong on the way.

The seam is requests' transport adapter.  The bytes of the response go
through the real httplib and urllib3 parsers; sessions, redirects, status
handling and streaming are the real requests.
"""
import errno
import gzip
import httplib
import socket
import StringIO

import seams
import simos

GARBAGE = {
    'empty': '',
    'chunks': 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
              'xyz\r\nhello\r\n0\r\n\r\n',
}


def compress(body):
    out = StringIO.StringIO()
    packer = gzip.GzipFile('', 'wb', 6, out, 1400000000)
    packer.write(body)
    packer.close()
    return out.getvalue()


class Wire(object):
    """The receiving side of a connection: a socket's file object."""

    def __init__(self, net, data, fault, timeout):
        self.net = net
        self.timeout = timeout
        self.data = data
        self.pos = 0
        self.fault = fault
        self.closed = False
        self.limit = len(data)
        if fault is not None:
            self.limit = min(self.limit, fault['at'])

    def _end(self):
        fault = self.fault
        if fault is None or self.limit >= len(self.data):
            return
        self.net.kernel.count('fault.net.' + fault['kind'])
        self.net.fired(fault)
        if fault['kind'] == 'reset':
            raise socket.error(errno.ECONNRESET, 'Connection reset by peer')
        if fault['kind'] == 'stall':
            if self.timeout is None:
                # nothing ever comes, and nobody gives up
                self.net.kernel.hang()
            self.net.kernel.clock += self.timeout
            raise socket.timeout('timed out')
        # 'truncate': the peer closed the connection, an ordinary EOF

    def read(self, size=-1):
        self.net.kernel.step('net', 'read')
        end = self.limit if size < 0 else min(self.limit, self.pos + size)
        data = self.data[self.pos:end]
        self.pos = end
        self.net.kernel.clock += len(data) / 1e6
        if size < 0 or len(data) < size:
            if data and self.fault is not None and \
               self.fault['kind'] in ('reset', 'stall') and size > 0 \
               and self.fault.get('late'):
                return data
            self._end()
        return data

    def readline(self, size=-1):
        stop = self.data.find('\n', self.pos, self.limit)
        end = self.limit if stop < 0 else stop + 1
        if 0 <= size < end - self.pos:
            end = self.pos + size
        data = self.data[self.pos:end]
        self.pos = end
        if stop < 0 and len(data) != size:
            self._end()
        return data

    def readlines(self):
        return list(iter(self.readline, ''))

    def flush(self):
        pass

    def close(self):
        self.closed = True


class Sock(object):
    def __init__(self, wire):
        self.wire = wire

    def makefile(self, *args):
        return self.wire

    def close(self):
        pass


class Network(object):
    """``pages``: {url: (status, headers dict, body)}

    ``script``: {request number: fault}, counted from 1 over the whole run.
    """

    def __init__(self, kernel, pages, script=None, framing='length',
                 chunk=512):
        self.kernel = kernel
        self.pages = pages
        self.script = script or {}
        self.framing = framing
        self.chunk = chunk
        self.requests = []
        self.down = False
        self.whole = []         # urls delivered in full
        self.gzip = False       # compress when allowed to
        self.timeout = None

    def fired(self, fault):
        self.kernel.cur.fired.append('net %s' % fault['kind'])
        self.kernel.log('net fault', fault['kind'])

    def fetch(self, request, timeout):
        """Returns an httplib response. Raises socket errors."""
        kernel = self.kernel
        if isinstance(timeout, tuple):
            timeout = timeout[1]
        self.timeout = timeout
        url = simos.as_str(request.url).split('#')[0]
        kernel.step('net', url)
        kernel.clock += 0.03
        self.requests.append(url)
        kernel.cur.asked.append(url)
        number = len(self.requests)
        fault = self.script.get(number)
        kernel.log('request', number, url)
        if self.down:
            kernel.count('fault.net.down')
            raise socket.error(errno.ENETUNREACH, 'Network is unreachable')
        body_fault = None
        corrupt = None
        if fault is not None:
            kind = fault['kind']
            if kind in ('refused', 'dns', 'connect_timeout'):
                kernel.count('fault.net.' + kind)
                self.fired(fault)
                if kind == 'refused':
                    raise socket.error(errno.ECONNREFUSED,
                                       'Connection refused')
                if kind == 'dns':
                    raise socket.gaierror(-2, 'Name or service not known')
                kernel.clock += 120
                raise socket.timeout('timed out')
            if kind == 'status':
                kernel.count('fault.net.status')
                self.fired(fault)
                return self.respond(request, fault['code'], {},
                                    '<html>error %d</html>\n' % fault['code'])
            if kind == 'garbage':
                kernel.count('fault.net.garbage')
                self.fired(fault)
                return self.parse(request, GARBAGE[fault['what']], None)
            if kind == 'loop':
                kernel.count('fault.net.redirect_loop')
                self.fired(fault)
                alias = url + ('&' if '?' in url else '?') + 'loop=1'
                self.pages[alias] = (302, {'Location': alias}, '')
                return self.respond(request, 302, {'Location': alias}, '')
            if kind == 'gone':
                kernel.count('fault.net.redirect_gone')
                self.fired(fault)
                return self.respond(request, 301, {
                    'Location': 'http://gone.example/x'}, '')
            if kind in ('truncate', 'reset', 'stall'):
                body_fault = fault
            elif kind == 'corrupt':
                corrupt = fault
            elif kind == 'redirect':
                kernel.count('fault.net.redirect')
                self.fired(fault)
                alias = url + ('&' if '?' in url else '?') + 'mirror=1'
                self.pages.setdefault(alias, self.pages.get(url))
                return self.respond(request, 302, {'Location': alias}, '')
        page = self.pages.get(url)
        if page is None:
            return self.respond(request, 404, {},
                                '<html>not found</html>\n')
        status, headers, body = page
        if corrupt is not None and body:
            kernel.count('fault.net.corrupt')
            self.fired(corrupt)
            at = int(corrupt['at'] * len(body)) % len(body)
            body = body[:at] + chr(ord(body[at]) ^ 0x55) + body[at + 1:]
        if status != 200:
            # requests leaks the error of a redirect with an incomplete body
            body_fault = None
        if body_fault is None and corrupt is None and status == 200:
            self.whole.append(url)
        return self.respond(request, status, headers, body, body_fault)

    def respond(self, request, status, headers, body, fault=None):
        framing = self.framing
        if framing == 'close' and (fault is not None or status != 200):
            # nobody could tell that something is missing
            framing = 'length'
        headers = dict(headers)
        if self.gzip and status == 200 and 'gzip' in \
                (request.headers.get('Accept-Encoding') or ''):
            # what nginx does for JSON and text, if one lets it
            body = compress(body)
            headers['Content-Encoding'] = 'gzip'
        reason = httplib.responses.get(status, 'Status')
        lines = ['HTTP/1.1 %d %s' % (status, reason)]
        for name, value in sorted(headers.items()):
            lines.append('%s: %s' % (name, value))
        if framing == 'close':
            lines.append('Connection: close')
            payload = body
        elif framing == 'chunked':
            lines.append('Transfer-Encoding: chunked')
            parts = []
            chunk = max(self.chunk, len(body) // 100)
            for i in range(0, len(body), chunk):
                part = body[i:i + chunk]
                parts.append('%x\r\n%s\r\n' % (len(part), part))
            parts.append('0\r\n\r\n')
            payload = ''.join(parts)
        else:
            lines.append('Content-Length: %d' % len(body))
            payload = body
        head = '\r\n'.join(lines) + '\r\n\r\n'
        if fault is not None:
            fault = dict(fault)
            # never past the last byte: something must be missing
            room = len(payload) if framing != 'chunked' \
                else max(0, len(payload) - 5)
            fault['at'] = len(head) + min(int(fault['at'] * room),
                                          max(0, room - 1))
        return self.parse(request, head + payload, fault)

    def parse(self, request, data, fault):
        timeout = self.timeout
        response = httplib.HTTPResponse(
            Sock(Wire(self, data, fault, timeout)), buffering=True,
            method=request.method)
        response.begin()
        return response


def install():
    import requests
    from requests import adapters, exceptions
    from requests.packages.urllib3.response import HTTPResponse
    real = adapters.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True,
             cert=None, proxies=None):
        if not seams.cur():
            return real(self, request, stream, timeout, verify, cert, proxies)
        net = seams.KERNEL.net
        if net is None:
            raise exceptions.ConnectionError('no network', request=request)
        try:
            low = net.fetch(request, timeout)
        except socket.timeout, exc:
            raise exceptions.ConnectTimeout(exc, request=request)
        except (socket.error, httplib.HTTPException), exc:
            raise exceptions.ConnectionError(exc, request=request)
        resp = HTTPResponse.from_httplib(low, preload_content=False,
                                         decode_content=False)
        response = self.build_response(request, resp)
        if not stream:
            response.content
        return response
    adapters.HTTPAdapter.send = send
