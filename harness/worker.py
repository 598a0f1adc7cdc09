"""Worker process: executes generated cases against the library and returns observations.
argv: so-path socket-path ; one connection per rank."""
import importlib, os, pickle, socket, struct, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]


def recvn(s, n):
    b = b''
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            return None
        b += c
    return b


def recv(s):
    h = recvn(s, 8)
    if h is None:
        return None
    b = recvn(s, struct.unpack('<Q', h)[0])
    return None if b is None else pickle.loads(b)


def send(s, o):
    b = pickle.dumps(o, protocol=4)
    s.sendall(struct.pack('<Q', len(b)) + b)


def main():
    so, path = sys.argv[1], sys.argv[2]
    rank = int(os.environ.get('OMPI_COMM_WORLD_RANK', '0'))
    s = socket.socket(socket.AF_UNIX)
    s.connect(path)
    send(s, ('hello', rank, os.getpid()))
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 0)
    if not os.environ.get('TDY_WORKER_OUT'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import tdy
    L = None
    while True:
        m = recv(s)
        if m is None:
            os._exit(0)
        mod, fun, case, lazy = m
        try:
            M = importlib.import_module(mod)
            if L is None:
                L = tdy.Lib(so)
                if not lazy:
                    L.init(['tdyh'] + os.environ.get('TDY_ARGV', '').split())
            L.cb_error = None
            obs = getattr(M, fun)(L, case)
            if L.cb_error:
                obs = {'_exc': 'callback: ' + L.cb_error}
        except tdy.TDyError as e:
            obs = {'_err': [e.fn, e.code, e.msg]}
        except Exception:
            obs = {'_exc': traceback.format_exc()}
        send(s, obs)
        if L is not None:
            # callbacks registered by the previous case stay alive one more round
            L.keep = L.keep[-2000:]


main()
