import pickle, socket, struct, time


def _recvn(s, n, t_end):
    b = b''
    while len(b) < n:
        left = t_end - time.time()
        if left <= 0:
            raise TimeoutError
        s.settimeout(left)
        try:
            c = s.recv(min(n - len(b), 1 << 20))
        except socket.timeout:
            raise TimeoutError
        except OSError:
            return None
        if not c:
            return None
        b += c
    return b


def recv_timeout(s, t):
    t_end = time.time() + t
    h = _recvn(s, 8, t_end)
    if h is None:
        return None
    b = _recvn(s, struct.unpack('<Q', h)[0], t_end)
    return None if b is None else pickle.loads(b)


def send(s, o):
    b = pickle.dumps(o, protocol=4)
    s.sendall(struct.pack('<Q', len(b)) + b)
