def tree(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, e.tail, tuple(tree(c) for c in e))
