"""Assumed contract of lxml: an element is a mutable tree node with a text before its children and a tail after its
end tag. Only what the code uses; names and attributes are assumed to be valid XML. tools/selftest.py compares it with
lxml itself (random operations on both)."""

CLASSES = {
    'Elem': {'path': 'contracts.lxml_model:Element', 'sequence': 'children',
             'fields': {'tag': 'str', 'text': 'opt[str]', 'tail': 'opt[str]', 'attrib': 'dict[str,str]',
                        'children': 'list[Elem]', 'parent': 'opt[Elem]', 'previous': 'opt[Elem]'}},
}
EXTERNS = {
    'Elem.xpath': {'args': ['Elem', 'str'], 'ret': 'list[Elem]',
                   'reads': ['Elem.tag', 'Elem.attrib', 'Elem.children', 'Elem.parent']},
    'lxml.builder.E': {'model': 'contracts.lxml_model:new_element', 'ret': 'Elem'},
}


class Element:
    def __init__(self, tag):
        self.tag = tag
        self.text = None
        self.tail = None
        self.attrib = {}
        self.children = []
        self.parent = None
        self.previous = None

    def getparent(self):
        return self.parent

    def getprevious(self):
        return self.previous

    def append(self, child):
        """of a child that is not part of a tree"""
        child.previous = self.children[-1] if self.children else None
        child.parent = self
        self.children.append(child)

    def index(self, child):
        for i, x in enumerate(self.children):
            if x is child:
                return i
        raise ValueError()

    def insert(self, index, child):
        """of a child that is not part of a tree, with 0 <= index <= number of children"""
        before = self.children[:index]
        after = self.children[index:]
        child.previous = before[-1] if before else None
        child.parent = self
        if after:
            after[0].previous = child
        self.children = before + [child] + after

    def remove(self, child):
        """with its tail"""
        i = self.index(child)
        after = self.children[i + 1:]
        if after:
            after[0].previous = child.previous
        self.children = self.children[:i] + after
        child.parent = None
        child.previous = None

    def addprevious(self, child):
        """of an element that may be part of a tree"""
        if child.parent is not None:
            child.parent.remove(child)
        self.parent.insert(self.parent.index(self), child)

    def replace(self, child, element):
        """with an element that is not part of a tree"""
        self.insert(self.index(child), element)
        self.remove(child)

    def extend(self, elements):
        for element in elements:
            if element.parent is not None:
                element.parent.remove(element)
            self.append(element)


def new_element(tag, attrib=None, text=None):
    r = Element(tag)
    if attrib is not None:
        r.attrib = dict(attrib)
    if text is not None:
        r.text = text
    return r
