SPECIFICATION Spec
CONSTANTS
  Paths = {"a.graphml", "b.c.gml"}
  Graphs = {1, 2}
  Formats = {"", "graphml", "gml", "gexf", "xml"}
  Backends = {"", "networkx", "graph-tool", "igraph"}
VIEW View
INVARIANT Faithful
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
