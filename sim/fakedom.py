"""A browser document behind the module `js`: tree, text, attributes and listeners with the
semantics of the DOM standard (strict: what throws in a browser throws here)."""
import types


class DOMException(Exception):
    pass


def js_string(v):
    """What the browser makes of a Python value that crosses into JavaScript."""
    if v is None:
        return "undefined"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    return str(v)


class EventTarget:
    def __init__(self):
        self.listeners = []    # (type, function)

    def addEventListener(self, type, listener, options=None):
        if not any(t == type and f is listener for t, f in self.listeners):
            self.listeners.append((type, listener))

    def removeEventListener(self, type, listener, options=None):
        self.listeners = [(t, f) for t, f in self.listeners if not (t == type and f is listener)]

    def dispatchEvent(self, event):
        for t, f in list(self.listeners):
            if t == event.type and (t, f) in self.listeners:
                f(event)
        return True


class Event:
    def __init__(self, type):
        self.type = type


class Node(EventTarget):
    def __init__(self, nodeName):
        super().__init__()
        self.nodeName = nodeName
        self.parentNode = None
        self.childNodes = []

    # reading
    @property
    def isConnected(self):
        n = self
        while n.parentNode is not None:
            n = n.parentNode
        return n.nodeName == "#document"

    @property
    def firstChild(self):
        return self.childNodes[0] if self.childNodes else None

    @property
    def nextSibling(self):
        if self.parentNode is None:
            return None
        sib = self.parentNode.childNodes
        i = [c is self for c in sib].index(True) + 1
        return sib[i] if i < len(sib) else None

    def contains(self, other):
        while other is not None:
            if other is self:
                return True
            other = other.parentNode
        return False

    # changing
    def insertBefore(self, node, child):
        if not isinstance(node, Node):
            raise TypeError("Failed to execute 'insertBefore' on 'Node': parameter 1 is not of type 'Node'.")
        if isinstance(self, Text):
            raise DOMException("HierarchyRequestError")
        if node.contains(self):
            raise DOMException("HierarchyRequestError: The new child element contains the parent.")
        if child is not None and child.parentNode is not self:
            raise DOMException("NotFoundError: The node before which the new node is to be inserted is not a child of this node.")
        if child is node:
            child = node.nextSibling
        if node.parentNode is not None:
            node.parentNode._drop(node)
        i = len(self.childNodes) if child is None else [c is child for c in self.childNodes].index(True)
        self.childNodes.insert(i, node)
        node.parentNode = self
        return node

    def appendChild(self, node):
        return self.insertBefore(node, None)

    def removeChild(self, node):
        if node is None or node.parentNode is not self:
            raise DOMException("NotFoundError: The node to be removed is not a child of this node.")
        self._drop(node)
        return node

    def replaceChild(self, node, child):
        nxt = child.nextSibling
        self.removeChild(child)
        self.insertBefore(node, nxt)
        return child

    def remove(self):
        if self.parentNode is not None:
            self.parentNode._drop(self)

    def append(self, *nodes):
        for n in nodes:
            self.appendChild(n)

    def before(self, *nodes):
        for n in nodes:
            self.parentNode.insertBefore(n, self)

    def replaceWith(self, node):
        self.parentNode.replaceChild(node, self)

    def _drop(self, node):
        i = [c is node for c in self.childNodes].index(True)
        del self.childNodes[i]
        node.parentNode = None


class Text(Node):
    def __init__(self, data):
        super().__init__("#text")
        self._data = js_string(data)

    def _get(self):
        return self._data

    def _set(self, v):
        self._data = "" if v is None else js_string(v)

    textContent = data = nodeValue = property(_get, _set)


class Element(Node):
    def __init__(self, tag):
        super().__init__(tag.upper())
        self.tagName = self.nodeName
        self.attributes = {}

    @property
    def textContent(self):
        return "".join(c.textContent for c in self.childNodes)

    @textContent.setter
    def textContent(self, v):
        for c in list(self.childNodes):
            self._drop(c)
        if v not in (None, ""):
            self.appendChild(Text(v))

    def setAttribute(self, name, value):
        if not isinstance(name, str) or not name or any(c in name for c in " \t\n/>=\0"):
            raise DOMException("InvalidCharacterError")
        self.attributes[name.lower()] = js_string(value)

    def getAttribute(self, name):
        return self.attributes.get(name.lower())

    def hasAttribute(self, name):
        return name.lower() in self.attributes

    def removeAttribute(self, name):
        self.attributes.pop(name.lower(), None)

    def toggleAttribute(self, name, force=None):
        on = (not self.hasAttribute(name)) if force is None else force
        if on:
            self.attributes.setdefault(name.lower(), "")
        else:
            self.removeAttribute(name)
        return on


class Document(Node):
    def __init__(self):
        super().__init__("#document")
        self.body = Element("body")
        self.appendChild(self.body)

    def createElement(self, tag):
        if not isinstance(tag, str) or not tag or not tag[0].isalpha():
            raise DOMException(f"InvalidCharacterError: {tag!r}")
        return Element(tag)

    def createTextNode(self, data):
        return Text(data)


def make_js():
    js = types.ModuleType("js")
    js.document = Document()
    js.window = types.SimpleNamespace(document=js.document)
    return js
