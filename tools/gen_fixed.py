#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's fix: commits (development aid; never run by a check)."""
import subprocess, re, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MAP = [("finished task queues another", "K01"), ("timer freed twice when", "K04"), ("left over are destroyed while", "K02"), ("client destroyed while its connection", "K08"), ("find of a view|rfind on|find_last_of|comparing views|substr and copy|splitting a view|of a view and a literal", "K23"),
       ("text to number|lexical_cast", "K24"), ("FmtStream|of a Fmt", "K25"),
       ("a stream left out values", "K25"), ("record of a long message|system error log|error log statements", "K20"),
       ("log files|log directory", "K19"), ("asynchronous log", "K18"), ("shut down by other thread while it is established", "K08"), ("write complete|high water", "K09"), ("ShutdownWrite|closed more than once", "K07"),
       (r"ConnectionBase::Send|write event handler|edge-triggered connection", "K05"), ("read error", "K06"),
       ("ConnectionBase", "K08"), ("connection pool was freed", "K08"), ("Acceptor|TcpServer", "K10"), ("TcpClient|Connector", "K11"),
       ("ChunkList", "K14"), ("ChunkStream|Codec|Pb|protobuf", "K29"), ("Rpc|RPC|rpc", "K30"), ("ReservedArray|LibcAlloc", "K16"), ("ForwardList|forward list", "K15"), ("chunk list", "K14"),
       ("BufferReadFromFd|^Buffer", "K13"), ("MutexLock|Condition|CountDownLatch|AtomicCounter|RWLock|RwLock", "K21"),
       ("WeakCallback|Thread", "K22"), ("Timer", "K04"), ("Epoller|Poller|Channel|removed and destroyed", "K12"),
       ("EventLoopThread|EventLoopPool|leaked the eventfd", "K02"), ("EventLoop", "K01"),
       ("MemoryPool|ObjectPool", "K17"), ("AsyncLog", "K18"), ("LogFile|AppendFile", "K19"), ("Logger|LOG_|^Log", "K20"),
       ("StringView(To|Util)|lexical_cast", "K24"), ("FmtStream|LexicalStream|FixedBuffer", "K25"), ("StringView|StrSplit|StrCat|String", "K23"),
       ("InetAddr|sock::", "K26"), ("optional|Any|TimeStamp|make_unique|down_pointer_cast|AddTime", "K27")]
lines = [l for l in open(V + "/known_findings.txt") if not l.startswith("fixed:")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True)
n = 0
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix: ") or h in ():
        continue
    s = s[5:]
    for rx, k in MAP:
        if re.search(rx, s):
            break
    else:
        print("unmapped", h, s)
        continue
    a = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%ae", h], text=True)
    if "verif" not in a:
        continue
    lines.append("fixed: property=%s %s %s\n" % (k, h, s)); n += 1
open(V + "/known_findings.txt", "w").writelines(lines)
print(n)
