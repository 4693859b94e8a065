"""
The oracle's own reading of a described file: which objects it holds, at which
addresses, with which NeXus class paths (instrumented in symbolic runs).
"""

from props.common import NON


class Entry:
    def __init__(self, addr, cp, node, parent, is_attr=False, name=None, value=None):
        self.addr = addr
        self.cp = cp
        self.node = node
        self.parent = parent
        self.is_attr = is_attr
        self.name = name
        self.value = value


def deref(root, node, depth=0):
    """object behind a link (root: the file the link is in); None: nowhere"""
    k = node.kind
    if k == "hard":
        return node.extra["target"]
    if k == "soft":
        if depth > 12:
            return None
        return find(root, node.extra["path"], depth + 1)
    if k == "external":
        if depth > 12:
            return None
        other = node.extra.get("root")
        if other is None:
            return None
        return find(other, node.extra["path"], depth + 1)
    return node


def child(group, name):
    for k, c in group.children:
        if k == name:
            return c
    return None


def find(root, path, depth=0):
    """object at an absolute path, links followed; None: nothing there"""
    cur = root
    for p in path.split("/"):
        if len(p) == 0 or p == ".":
            continue
        if cur is None or cur.kind != "group":
            return None
        c = child(cur, p)
        if c is None:
            return None
        cur = deref(root, c, depth)
    return cur


def lookup(root, group, name):
    """object at name (absolute, or from group); None: nothing there"""
    if len(name) == 0:
        return None
    if name.startswith("/"):
        return find(root, name)
    cur = group
    for p in name.split("/"):
        if len(p) == 0 or p == ".":
            continue
        if cur is None or cur.kind != "group":
            return None
        c = child(cur, p)
        if c is None:
            return None
        cur = deref(root, c)
    return cur


def nxclass(node):
    """the NeXus class a group states, or None"""
    v = node.attr("NX_class")
    if v is None or v.kind not in ("str", "bytes"):
        return None
    if v.data.startswith("NX"):
        return v.data
    return None


def walk(root):
    """every object and attribute of the file, in the order met"""
    out = []

    def attrs(e):
        for k, val in e.node.attrs:
            if e.cp == NON:
                out.append(Entry(None, NON, e.node, e, True, k, val))
            else:
                out.append(Entry(e.addr + "@" + k, e.cp + "@" + k, e.node, e, True, k, val))

    def visit(node, file_root, addr, cp, parent, chain, name):
        e = Entry(addr, cp, node, parent, name=name)
        out.append(e)
        attrs(e)
        if node.kind != "group":
            return
        if node in chain:
            return  # a group that contains itself: not entered again
        base = "" if addr == "/" else addr
        for k, c in node.children:
            froot = file_root
            t = deref(file_root, c)
            if t is None:
                continue
            if c.kind == "external":
                froot = c.extra["root"]
            sub = cp
            if cp != NON:
                if t.kind == "group":
                    nx = nxclass(t)
                    sub = NON if nx is None else cp + "/" + nx
                else:
                    sub = cp + "/" + k
            visit(t, froot, base + "/" + k, sub, e, chain + [node], k)

    visit(root, root, "/", "", None, [], "/")
    return out
